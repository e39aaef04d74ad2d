"""C16: delegates call the method they were made of, on the object they were made with."""
from vlib.stmtgen import *
from vlib import objs
from props.c06 import UserExc

QUICK, THOROUGH = 1500, 20000
RULE = ("each case is a program of 1..3 delegate signatures, 2..9 static and instance methods of those and other signatures, classes "
        "with state and delegate fields, and methods that take, return, store, swap and call delegates; calls stand in expressions, "
        "arguments of other calls, loops and try statements. Non-trivial: at least 6 delegate calls of at least 2 different targets")
ASSUME = ["delegates are called through a local variable, a parameter, a field of the own object or Invoke; the other forms are not "
          "accepted by the compiler",
          "delegates of virtual, interface and struct methods are not generated"]

PT = ["int", "int", "long", "byte", "short", "uint", "bool", "double", "ulong", "char", "string", "sbyte", "ushort", "float"]


class Sig:
    def __init__(self, ret, ps):
        self.ret, self.ps = ret, ps
        self.name = "Delegate<%s>" % ", ".join([ret] + ps)


class Dg:
    """A model delegate."""

    def __init__(self, m, this):
        self.m, self.this = m, this


class Obj:
    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class IMethod(Method):
    """A method of a class: the fields are slots of the activation."""

    def invoke(self, m, this, vals):
        m.tick()
        m.depth += 1
        if m.depth > 40:
            raise StepLimit()
        fr = Frame(m, this)
        if this is not None:
            fr.slots.update(this.f)
        for p, slot in vals:
            fr.slots[p.name] = slot
        try:
            for s in self.body:
                s.run(fr)
        except ReturnX as r:
            return r.v
        finally:
            m.depth -= 1
        if self.ret != "void":
            raise Undef("no return")


class DCall(E):
    def __init__(self, sig, var, args, inv=False):
        self.sig, self.var, self.args, self.inv = sig, var, args, inv
        self.t = sig.ret

    def kids(self):
        return self.args

    def tx(self):
        return "%s%s(%s)" % (self.var, ".Invoke" if self.inv else "", ", ".join(a.tx() for a in self.args))

    def ev(self, fr):
        fr.m.tick()
        d = fr.slots[self.var][0]
        if d is None:
            raise Undef("null")
        vs = []
        for t, a in zip(self.sig.ps, self.args):
            v = a.ev(fr)
            if is_num(t) and is_num(a.t):
                v = conv(t, v)
            vs.append(v)
        if fr.slots[self.var][0] is not d:
            raise Undef("changed")
        fr.m.ev("call")
        fr.m.events.setdefault("targets", set()).add((d.m.name, id(d.this)))
        return d.m.invoke(fr.m, d.this, [(p, [v]) for p, v in zip(d.m.params, vs)])


class Group(E):
    """A method group: the delegate of a method."""

    def __init__(self, sig, text, m, obj=None):
        self.t, self.text, self.m, self.obj = sig.name, text, m, obj

    def tx(self):
        return self.text

    def ev(self, fr):
        fr.m.tick()
        o = None
        if self.obj is not None:
            o = fr.slots[self.obj][0]
            if o is None:
                raise Undef("null")
        return Dg(self.m, o)


class DGen(Gen):
    """Expressions with delegate calls and of delegate types."""
    w = None
    names_ = property(lambda self: [c.name for c in self.w.classes])

    def _e(self, t, d):
        s, w = self.s, self.w
        if t in w.sigs:
            return self.dexpr(t, d)
        if d > 0 and s.p(45):
            c = self.dcall([x for x in w.sigs.values() if x.ret == t], d)
            if c is not None:
                return c
        return Gen._e(self, t, d)

    def dcall(self, sigs, d):
        s = self.s
        cs = [(x, v) for x in sigs for v in self.vars.get(x.name, [])
              if all(self.vars.get(p) for p in x.ps if p in self.w.sigs)]
        if not cs:
            return None
        x, v = s.choice(cs)
        return DCall(x, v.name, [self.e(p, d - 1) for p in x.ps], self.nest > 0 and s.p(12))

    nest = 0

    def e(self, t, d):
        """Method groups stand only where a statement expects a delegate; in expressions there are variables."""
        self.nest += 1
        try:
            if t in self.w.sigs:
                with self.s.span():
                    return self.dexpr(t, d)
            return Gen.e(self, t, d)
        finally:
            self.nest -= 1

    ov = True

    def top(self, t, d, ov=True):
        o, self.nest = self.nest, 0
        self.ov = ov
        try:
            with self.s.span():
                return self.dexpr(t, d)
        finally:
            self.nest = o
            self.ov = True

    def leaf(self, t):
        if t in self.w.sigs:
            return self.dexpr(t, 0)
        if t in self.names_:
            return self.s.choice(self.vars[t])
        return Gen.leaf(self, t)

    def call(self, f, d):
        if f.ret not in self.w.sigs and any(p.t in self.w.sigs and not self.vars.get(p.t) for p in f.params):
            return self.leaf(f.ret) if f.ret != "void" else None
        if any(p.t in self.names_ and not self.vars.get(p.t) for p in f.params):
            return self.leaf(f.ret) if f.ret != "void" else None
        return Gen.call(self, f, d)

    def dexpr(self, t, d):
        s, w = self.s, self.w
        sig = w.sigs[t]
        vs = self.vars.get(t, [])
        k = s.weighted([(4, "var"), (5, "group"), (3, "obj"), (2, "cond"), (3, "fn")])
        if k == "cond" and len(vs) > 1 and d > 0:
            return Cond(self.e("bool", 1), s.choice(vs), s.choice(vs))
        if self.nest and vs:
            k = "var"
        if k == "fn" and d > 0:
            fs = [f for f in self.funcs if f.ret == t and all(p.t not in w.sigs and p.t not in self.names_ or self.vars.get(p.t)
                                                              for p in f.params)]
            if fs:
                return self.call(s.choice(fs), d - 1)
        if k in ("obj", "group") and not self.nest:
            os = [(o, m) for c in w.classes for o in self.vars.get(c.name, []) for m in c.methods if m.sig is sig]
            if k == "obj" and os:
                o, m = s.choice(os)
                return Group(sig, "%s.%s" % (o.name, m.name), m, o.name)
            ms = [m for m in w.statics if m.sig is sig and (self.ov and m.cls == self.cls or m.name != "Ov")]
            m = s.choice(ms)
            return Group(sig, (m.cls + "." if self.cls != m.cls or s.p(20) and m.name != "Ov" else "") + m.name, m)
        if vs:
            return s.choice(vs)
        m = s.choice([m for m in w.statics if m.sig is sig and m.name != "Ov"])
        return Group(sig, (m.cls + "." if self.cls != m.cls else "") + m.name, m)


class Cls:
    def __init__(self, name):
        self.name, self.fields, self.methods, self.dfields = name, [], [], []

    def new(self, g):
        s = g.s
        es = [g.e(t, 1) for t, n in self.fields]

        def ev(fr):
            fr.m.tick()
            vs = [[e.ev(fr)] for e in es]
            return Obj(self, dict(list(zip([n for t, n in self.fields], vs)) + [(n, [None]) for x, n in self.dfields]))
        return Raw(self.name, "new %s(%s)" % (self.name, ", ".join(e.tx() for e in es)), ev)

    def tx(self):
        b = ["public %s %s;" % (t, n) for t, n in self.fields] + ["public %s %s;" % (x.name, n) for x, n in self.dfields]
        b.append("public %s(%s)\n{\n%s\n}" % (self.name, ", ".join("%s a%s" % (t, n) for t, n in self.fields),
                                              ind("\n".join("%s = a%s;" % (n, n) for t, n in self.fields))))
        for x, n in self.dfields:
            b.append("public void Set%s(%s v)\n{\n    %s = v;\n}" % (n, x.name, n))
        return "class %s\n{\n%s\n}" % (self.name, ind("\n\n".join(b + [m.tx() for m in self.methods + self.sts])))


class DS(SG):
    def stmt(self, d):
        s, g, w = self.s, self.g, self.w_
        k = s.weighted([(14, "sg"), (5, "ddecl"), (3, "dset"), (6, "call"), (2, "arr"), (3, "obj"), (2, "field"), (2, "swap")])
        if k == "sg":
            return SG.stmt(self, d)
        if not w.sigs:
            return SG.stmt(self, d)
        sig = s.choice(list(w.sigs.values()))
        t = sig.name
        if k == "ddecl":
            e = g.top(t, 2)
            n = self.fresh()
            g.add(t, n)
            return Decl(t, n, e, "var" if isinstance(e, (Var, Call)) and s.p(30) else None)
        if k == "dset":
            v = g.lv(t)
            if v is not None:
                return Ex(Assign(v, "", g.top(t, 2)))
        if k == "call":
            c = g.dcall([x for x in w.sigs.values() if x.ret not in w.sigs], 2)
            if c is not None:
                return Ex(c)
        if k == "swap":
            vs = [v for v in g.vars.get(t, []) if v.name not in g.readonly]
            if len(vs) >= 2:
                a, b = s.shuffle(vs)[:2]
                if s.p(50):
                    n = self.fresh()

                    def sw(fr):
                        fr.slots[n] = [fr.slots[a.name][0]]
                        fr.slots[a.name][0], fr.slots[b.name][0] = fr.slots[b.name][0], fr.slots[a.name][0]
                    return RawS("%s %s = %s;\n%s = %s;\n%s = %s;" % (t, n, a.name, a.name, b.name, b.name, n), sw)
                q = s.choice(["Swap", "Copy"])

                def sw(fr):
                    x, y = fr.slots[a.name], fr.slots[b.name]
                    if q == "Swap":
                        x[0], y[0] = y[0], x[0]
                    else:
                        y[0] = x[0]
                i = list(w.sigs).index(t)
                return RawS(("Program.Swap%d(ref %s, ref %s);" if q == "Swap" else "Program.Copy%d(%s, out %s);") % (i, a.name, b.name), sw)
        if k == "arr":
            at = t + "[]"
            vs = g.vars.get(at, [])
            if not vs or s.p(30):
                ln = s.i(1, 4)
                n = self.fresh()
                es = [g.top(t, 1) for _ in range(ln)]
                g.vars.setdefault(at, []).append(Var(at, n))
                self.lens[n] = ln

                def mk(fr):
                    a = [None] * ln
                    for i, e in enumerate(es):
                        a[i] = e.ev(fr)
                    fr.slots[n] = [a]
                return RawS("%s %s = new %s[%d];\n%s" % (at, n, t, ln, "\n".join("%s[%d] = %s;" % (n, i, e.tx())
                                                                                 for i, e in enumerate(es))), mk)
            a = s.choice(vs).name
            ln = self.lens[a]
            if ln in (2, 4) and s.p(60):
                ix = Bin("&", g.leaf("int"), Lit("int", ln - 1))
            else:
                ix = Lit("int", s.i(0, ln - 1))
            if s.p(60):
                n = self.fresh()
                g.add(t, n)
                return RawS("%s %s = %s[%s];" % (t, n, a, ix.tx()), lambda fr: fr.slots.__setitem__(n, [fr.slots[a][0][ix.ev(fr)]]))
            e = g.top(t, 1)

            def st(fr):
                v = e.ev(fr)
                fr.slots[a][0][ix.ev(fr)] = v
            return RawS("%s[%s] = %s;" % (a, ix.tx(), e.tx()), st)
        if k in ("obj", "field") and w.classes:
            c = s.choice(w.classes)
            vs = g.vars.get(c.name, [])
            if not vs or (k == "obj" and s.p(60)):
                e = s.choice(vs) if vs and s.p(25) else c.new(g)
                n = self.fresh()
                g.add(c.name, n)
                r = [Decl(c.name, n, e)]
                for x, f in [z for z in c.dfields if z[0].name in w.sigs and not isinstance(e, Var)]:
                    r.append(self.dset(n, x, f))
                return Seq(r)
            o = s.choice(vs).name
            if k == "obj":
                tt, f = s.choice(c.fields)
                if s.p(50) or tt == "string":
                    e = g.e(tt, 2)
                    return RawS("%s.%s = %s;" % (o, f, e.tx()), lambda fr: set_(fr.slots[o][0], f, e.ev(fr)))
                return Print(Raw(tt, "%s.%s" % (o, f), lambda fr: fr.slots[o][0].f[f][0]))
            if c.dfields and all(x.name in w.sigs for x, f in c.dfields):
                x, f = s.choice(c.dfields)
                if s.p(50):
                    return self.dset(o, x, f)
                n = self.fresh()
                g.add(x.name, n)

                def get(fr):
                    v = fr.slots[o][0].f[f][0]
                    if v is None:
                        raise Undef("null")
                    fr.slots[n] = [v]
                return RawS("%s %s = %s.%s;" % (x.name, n, o, f), get)
        return SG.stmt(self, d)

    def dset(self, o, x, f):
        q = self.s.p(50)
        e = self.g.top(x.name, 1, q)
        tx = ("%s.%s = %s;" if q else "%s.Set%s(%s);") % (o, f, e.tx())
        return RawS(tx, lambda fr: set_(fr.slots[o][0], f, e.ev(fr)))


def set_(o, f, v):
    o.f[f][0] = v


class World:
    def __init__(self):
        self.sigs, self.classes, self.statics = {}, [], []


def gen(s):
    w = World()
    excs = [objs.EXCEPTION, UserExc("X0", objs.EXCEPTION)]
    for _ in s.many(1, 3):
        ret = s.choice(["void", "int", "int", "long", "bool", "double", "string", "byte", "char"])
        ps = [s.choice(PT) for _ in range(s.weighted([(3, 0), (6, 1), (4, 2), (2, 3), (1, s.i(4, 9))]))]
        x = Sig(ret, ps)
        w.sigs.setdefault(x.name, x)
    if s.p(35):
        b = s.choice(list(w.sigs.values()))
        x = Sig(s.choice(["int", "void", b.name]), [s.choice([b.name, "int", b.name])] + [s.choice(PT)] * s.draw(2))
        w.sigs.setdefault(x.name, x)
    for k in s.many(0, 2):
        c = Cls("C%d" % k)
        c.fields = [(s.choice(["int", "long", "byte", "double", "string", "short"]), "f%d" % j) for j in range(s.i(1, 3))]
        c.dfields = [(s.choice(list(w.sigs.values())), "d%d" % j) for j in s.many(0, 2)]
        c.sts = []
        w.classes.append(c)
    funcs, order = [], []
    types = ["int", "int", "long", "bool", "byte", "double", "string"] + [x.ret for x in w.sigs.values() if x.ret != "void"
                                                                         and x.ret not in w.sigs]
    jobs = [("s", x, None) for x in w.sigs.values()]
    for _ in s.many(1, 6, 75):
        x = s.choice(list(w.sigs.values()))
        q = s.weighted([(3, "s"), (4, "i"), (4, "f"), (2, "c")])
        jobs.append((q, x, s.choice(w.classes) if w.classes else None))
    names = s.p(40)
    full, w.sigs = w.sigs, {}
    for k, (q, x, c) in enumerate(jobs):
        if k <= len(full):
            w.sigs = dict(list(full.items())[:k])
        if q in "ic" and c is None:
            q = "s"
        inside = c if q in "ic" else None
        ret = x.ret
        ps = list(x.ps)
        if q == "f":
            ret = s.choice([x.name, x.name, "int", "void", s.choice(types)])
            ps = [s.choice([x.name, x.name, s.choice(types)] + [z.name for z in w.classes]) for _ in range(s.i(0, 3))]
        sg = DS(s, ret=ret, excs=excs, types=types, exprdepth=2, use_float=True,
                weights=dict(if_=3, for_=3, while_=1, do_=1, decl=4, print=8, ret=1, brk=1, cont=1, try_=2, throw=1, assign=4, incdec=2))
        g = DGen(s, {}, [f for f in funcs if inside is None], effects=True, allow_float=True)
        sg.g, sg.w_, sg.lens = g, w, {}
        g.w = w
        g.cls = inside.name if inside else "Program"
        params = []
        for t in ps:
            n = sg.fresh()
            g.add(t, n)
            params.append(Param(t, n))
        if q == "i":
            for t, n in inside.fields:
                g.add(t, n)
            for z, n in inside.dfields:
                g.add(z.name, n)
                g.readonly.add(n)
        body = []
        if s.p(60):
            body.append(Print(Lit("string", "M%d" % k)))
        for p in params:
            if s.p(50) and p.t in PT:
                body.append(Print(Var(p.t, p.name)))
        body += sg.stmts(2, 0, 5)
        if ret != "void":
            body.append(Return(g.e(ret, 2), ret))
        nm = "M%d" % k
        if names and q == "s" and x.ps and k >= len(full):
            # overloads: every signature's parameter list is its own
            nm = "Ov"
            if any(m.name == nm and [p.t for p in m.params] == ps for m in order):
                nm = "M%d" % k
        m = IMethod(nm, ret, params, body, {"s": "public static", "f": "public static", "i": "public", "c": "public static"}[q])
        order.append(m)
        m.sig = x if q in "sic" else None
        m.cls = inside.name if inside else "Program"
        if q == "i":
            inside.methods.append(m)
        elif q == "c":
            inside.sts.append(m)
            w.statics.append(m)
        else:
            if q == "s":
                w.statics.append(m)
            if nm != "Ov":
                funcs.append(m)
    # the driver
    drv = []
    for k in s.many(1, 3):
        sg = DS(s, ret="void", excs=excs, types=types, exprdepth=3, use_float=True,
                weights=dict(if_=2, for_=4, while_=1, do_=1, decl=4, print=10, call=6, try_=2))
        g = DGen(s, {}, funcs, effects=True, allow_float=True)
        sg.g, sg.w_, sg.lens, g.w, g.cls = g, w, {}, w, "Program"
        m = IMethod("D%d" % k, "void", [], [Decl(x.name, n, e) for x, n, e in [(x, sg.fresh(), g.top(x.name, 1)) for x in w.sigs.values()]
                                                if not g.add(x.name, n).t.isdigit()] + sg.stmts(2, 6, 18), "public static")
        drv.append(m)
    for i, t in enumerate(w.sigs):
        drv.append(RawM("public static void Swap%d(ref %s a, ref %s b)\n{\n    %s t = a;\n    a = b;\n    b = t;\n}" % (i, t, t, t)))
        drv.append(RawM("public static void Copy%d(%s a, out %s b)\n{\n    b = a;\n}" % (i, t, t)))
    calls = [Try([Ex(Call(m, [])), Print(Lit("string", "ok"))], [(objs.EXCEPTION, None, [Print(Lit("string", "escaped"))])], None)
             for m in drv if isinstance(m, Method)]
    prog = [m for m in order if m.cls == "Program"] + drv
    tx, out, mc = program(s.shuffle(prog), calls, "\n\n".join([c.tx() for c in w.classes] + [excs[1].tx()]))
    n = mc.events.get("call", 0)
    nt = len(mc.events.get("targets", ()))
    s.tag("delegate call", n)
    return run_case(tx, out, units=n, nontrivial=n >= 6 and nt >= 2)


class RawM:
    def __init__(self, t):
        self.t = t

    def tx(self):
        return self.t
