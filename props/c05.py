"""C05 switch statements."""
from vlib.stmtgen import *
from vlib.objs import EnumT

RULE = ("each case is a program of 1..5 methods each dominated by switch statements over int, uint, byte, "
        "sbyte, short, ushort, bool, char and enum subjects (0..7 labels, literals, casts and constants, dense, sparse and extreme, stacked labels, default in any "
        "position or absent, fall-through, nested switches and loops, break and continue), called "
        "with several arguments. Non-trivial: at least 5 switches are executed and at least two of "
        "the outcomes hit, default and no-match occur.")
QUICK, THOROUGH = 1500, 15000


NARROW = ["byte", "sbyte", "short", "ushort", "uint", "bool"]
RANGE = {"byte": (0, 255), "sbyte": (-128, 127), "short": (-32768, 32767), "ushort": (0, 65535),
         "uint": (0, 4294967295)}


class SW(SG):
    enums = ()
    consts = ()

    def switch(self, d):
        s, g = self.s, self.g
        if self.enums and s.p(25):
            en = s.choice(self.enums)
            return self.enum_switch(en, d)
        if s.p(35):
            return self.narrow_switch(d)
        return SG.switch(self, d)

    def narrow_switch(self, d):
        """A subject of another integer type or bool; labels are literals, casts and constants."""
        s, g = self.s, self.g
        t = s.choice(NARROW)
        if t == "bool":
            pool = [True, False]
        else:
            lo, hi = RANGE[t]
            pool = sorted(set(v for v in (0, 1, 2, 3, 7, 8, 100, 127, 128, 200, 255, 256, 1000, 32767, 32768,
                                          65535, 65536, 2147483647, -1, -2, -5, -100, -128, -129, -32768)
                              if lo <= v <= min(hi, 2147483647)))
        items, used = [], []
        for v in s.shuffle(pool)[:s.i(0, 6)]:
            used.append(v)
            if t == "bool":
                items.append(Lit("bool", v))
            elif t != "uint" and s.p(15):
                items.append(Raw(t, "(%s)(%d)" % (t, v), (lambda v: lambda fr: v)(v)))
            else:
                items.append(Lit("int", v))
        for n, v in self.consts:
            if t != "bool" and v in pool and v not in used and s.p(40):
                used.append(v)
                k = s.i(-1, 2)
                if k > 0 and v + k not in used and v + k <= min(hi, 2147483647):
                    used[-1] = v + k
                    items.append(Raw("int", "%s + %d" % (n, k), (lambda v: lambda fr: v)(v + k)))
                else:
                    items.append(Raw("int", n, (lambda v: lambda fr: v)(v)))
        items = s.shuffle(items)
        if s.p(60) or not items:
            items.insert(s.i(0, len(items)), None)
        groups = []
        for it in items:
            if groups and s.p(20):
                groups[-1].append(it)
            else:
                groups.append([it])
        vs = g.vars.get(t, [])
        if vs and s.p(60):
            sub = s.choice(vs)
        elif t == "bool":
            sub = g.e("bool", 2)
        elif s.p(40):
            sub = Cast(t, Lit("int", s.choice(pool)))
        else:
            sub = Cast(t, g.e("int", 2))
        self.sw += 1
        cases = []
        for grp in groups:
            st = self.push()
            ss = self.stmts(d - 1, 0, 3)
            if any(isinstance(x, (Decl, Seq)) for x in ss):
                ss = [Blk(ss)]
            self.pop(st)
            if s.p(80):
                ss = ss + [Break()]
            cases.append((grp, ss))
        self.sw -= 1
        if not cases[-1][1]:
            cases[-1] = (cases[-1][0], [Break()])
        return Switch(sub, cases)

    def enum_switch(self, en, d):
        s = self.s
        items = s.shuffle(en.items)[:s.i(0, len(en.items))]
        seen = set()
        labs = []
        for n, v, _ in items:
            if v in seen:
                continue
            seen.add(v)
            labs.append(Raw(en, "%s.%s" % (en.name, n), (lambda v: lambda fr: v)(v)))
        if s.p(60) or not labs:
            labs.insert(s.i(0, len(labs)), None)
        groups = []
        for it in labs:
            if groups and s.p(20):
                groups[-1].append(it)
            else:
                groups.append([it])
        n, v, _ = s.choice(en.items)
        subj = Raw(en, "%s.%s" % (en.name, n), (lambda v: lambda fr: v)(v))
        vs = self.g.vars.get(en, [])
        if vs and s.p(80):
            subj = s.choice(vs)
        self.sw += 1
        cases = []
        for grp in groups:
            st = self.push()
            ss = self.stmts(d - 1, 0, 3)
            if any(isinstance(x, (Decl, Seq)) for x in ss):
                ss = [Blk(ss)]
            self.pop(st)
            if s.p(80):
                ss = ss + [Break()]
            cases.append((grp, ss))
        self.sw -= 1
        if not cases[-1][1]:
            cases[-1] = (cases[-1][0], [Break()])
        return Switch(subj, cases)


def make_enum(s, k):
    v = -1
    items = []
    for j in s.many(1, 6):
        if s.p(40):
            v = s.choice([0, 1, 2, 5, 10, 100, 1000, 65536, 7, 3])
            tx = str(v)
        else:
            v += 1
            tx = None
        items.append(("E%d" % j, v, tx))
    return EnumT("En%d" % k, items)


def gen(s):
    enums = [make_enum(s, k) for k in range(s.i(0, 2))]
    consts = [("K%d" % k, s.choice([0, 1, 2, 3, 7, 100, 127, 255, 1000, -1, -5])) for k in range(s.i(0, 3))]
    methods, calls = [], []
    for k in s.many(1, 5, 85):
        ret = s.choice(["void", "int", "int"])
        sg = SW(s, ret=ret, types=["int", "int", "char", "long", "bool"], exprdepth=2,
                weights=dict(switch=22, if_=4, for_=4, while_=1, do_=1, decl=4, print=10, ret=2))
        sg.enums, sg.consts = enums, consts
        ps = []
        for j in range(s.i(1, 3)):
            t = s.weighted([(5, "int"), (2, "char"), (4, "n")] + ([(3, "e")] if enums else []))
            if t == "e":
                t = s.choice(enums)
            if t == "n":
                t = s.choice(NARROW)
            n = sg.fresh()
            sg.g.add(t, n)
            ps.append(Param(t, n))
        body = [sg.make("switch", 3)] + sg.stmts(3, 0, 4)
        if ret != "void":
            body.append(Return(sg.g.e(ret, 2), ret))
        m = Method("F%d" % k, ret, ps, body)
        methods.append(m)
        for _ in s.many(1, 5, 75):
            args = []
            for p in ps:
                if isinstance(p.t, EnumT):
                    n, v, _ = s.choice(p.t.items)
                    args.append(Arg(Raw(p.t, "%s.%s" % (p.t.name, n), (lambda v: lambda fr: v)(v))))
                elif p.t == "bool":
                    args.append(Arg(Lit("bool", s.p(50))))
                elif p.t in RANGE:
                    lo, hi = RANGE[p.t]
                    v = s.choice([x for x in (0, 1, 2, 3, 7, 8, 100, 127, 128, 200, 255, 256, 1000, 32767, 32768,
                                              65535, 65536, 2147483647, -1, -2, -5, -100, -128, -129, -32768)
                                  if lo <= x <= hi])
                    args.append(Arg(Cast(p.t, Lit("int", v))))
                elif p.t == "char":
                    args.append(Arg(Lit("char", 97 + s.i(0, 11))))
                else:
                    args.append(Arg(Lit("int", s.choice(list(range(-6, 12)) + [100, 1000, 100000, -100, 2147483647,
                                                        -2147483648, 14, 21, 77]))))
            c = Call(m, args)
            calls.append(Ex(c) if ret == "void" else Print(c))
    text, out, mc = program(methods, calls, "\n".join(e.tx() for e in enums),
                            members=["const int %s = %d;" % c for c in consts])
    ks = [k for k in mc.events if k.startswith("switch")]
    for k in ks:
        s.tag(k, mc.events[k])
    return run_case(text, out, units=len(calls),
                    nontrivial=sum(mc.events[k] for k in ks) >= 5 and len(ks) >= 2)
