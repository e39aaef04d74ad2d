"""C07 calls: argument passing, ref/out aliasing, struct copies, overloads, recursion, results."""
from vlib.stmtgen import *
from vlib.objs import *

RULE = ("each case is a program of 3..9 methods (static or of a class instance), with up to 9 parameters of all primitive, "
        "struct, class and array types passed by value, ref or out, sets of overloads that differ in number and types of "
        "parameters, forwarding of ref parameters, two ref parameters for one variable, bounded direct and mutual recursion "
        "with locals kept across the call, results that are used, discarded, passed on or have a member selected. "
        "After every call all variables that the callee could reach are printed. Non-trivial: at least 12 calls were "
        "executed, at least one of them with a ref or out argument.")
QUICK, THOROUGH = 1500, 15000
PRIM = ["int", "int", "int", "long", "bool", "byte", "short", "uint", "ulong", "double", "float", "char", "sbyte", "ushort", "string"]


class CG(Gen):
    """Expressions over locals, fields of objects and structs, and elements of arrays."""
    rich = ()

    def call(self, f, d):
        c = self.mkcall(f, d)
        if c is None:
            return self.leaf(f.ret) if isinstance(f.ret, str) and f.ret != "void" else Lit("int", 0)
        return c

    def refvar(self, t):
        vs = [v for v in self.vars.get(t, []) if isinstance(v, Var) and v.name not in self.readonly]
        return self.s.choice(vs) if vs else None

    def arg(self, p, d):
        s = self.s
        if p.mode:
            v = self.refvar(p.t)
            return Arg(v, p.mode) if v is not None else None
        if isinstance(p.t, (StructT, ClassT, ArrT)):
            e = self.rich_e(p.t, d)
            return Arg(e) if e is not None else None
        return Arg(self.e(p.t, d))

    def rich_e(self, t, d):
        s = self.s
        fs = [f for f in self.funcs if f.ret is t]
        if d > 0 and fs and s.p(35):
            c = self.mkcall(s.choice(fs), d - 1)
            if c is not None:
                return c
        vs = self.vars.get(t)
        if vs:
            return s.choice(vs)
        return None

    def mkcall(self, f, d):
        args = []
        for p in f.params:
            a = self.arg(p, d) if getattr(f, "rec", None) is not p else Arg(Lit("int", self.s.i(0, 2)))
            if a is None:
                return None
            args.append(a)
        if isinstance(f, IM):
            o = self.rich_e(f.cls, 0)
            if f.cls is self.this_cls and (o is None or self.s.p(50)):
                o = This(f.cls, implicit=self.s.p(60))
            if o is None:
                return None
            return MCall(f, args, o)
        return Call(f, args, "Program" if self.this_cls is not None or self.s.p(10) else None)

    this_cls = None


class IM(Method):
    """A non-virtual instance method."""

    def __init__(self, cls, *a):
        Method.__init__(self, *a)
        self.cls = cls
        self.mods = "public"


class World:
    def __init__(self, s):
        self.s = s
        self.structs = [StructT("S%d" % k, self.fields(k)) for k in range(s.i(1, 2))]
        self.classes = [ClassT("C%d" % k, None, self.fields(k + 5)) for k in range(s.i(1, 2))]
        if s.p(40):
            self.structs.append(StructT("S9", [("int", "i9"), (self.structs[0], "n9"), ("short", "h9")]))
        if s.p(40):
            self.classes[0].fields.append((self.structs[0], "q"))
        self.arrays = [arr_t(t) for t in s.shuffle(["int", "long", "byte", "double"])[:s.i(1, 2)]]
        self.methods, self.names, self.k = [], [], 0

    def fields(self, k):
        s = self.s
        return [(s.choice(["int", "long", "byte", "short", "double", "bool", "uint", "string"]), "%s%d" % ("abcdef"[j], k))
                for j in range(s.i(1, 4))]

    def types(self):
        return self.structs + self.classes + self.arrays

    def ptype(self):
        s = self.s
        if s.p(30):
            return s.choice(self.types())
        return s.choice(PRIM)

    def places(self, g, v):
        """Adds the fields or elements of variable v as variables of g."""
        t = v.t
        if isinstance(t, (StructT, ClassT)):
            for ft, fn in t.fields:
                f = Fld(v, ft, fn)
                g.vars.setdefault(ft, []).append(f)
                if isinstance(ft, StructT):
                    for t2, n2 in ft.fields:
                        g.vars.setdefault(t2, []).append(Fld(f, t2, n2))
        elif isinstance(t, ArrT):
            g.vars.setdefault(t.elem, []).append(Idx(v, [Lit("int", self.s.i(0, 2))]))

    def new_local(self, sg, t, name):
        """Statements that declare a variable of any type with a value."""
        s, g = self.s, sg.g
        out = []
        if isinstance(t, StructT):
            v = Var(t, name)
            out.append(Decl(t, name, New(t)) if s.p(50) else SDecl(t, name))
            out += self.fill(g, v)
        elif isinstance(t, ClassT):
            v = Var(t, name)
            out.append(Decl(t, name, New(t)))
            out += self.fill(g, v)
        elif isinstance(t, ArrT):
            v = Var(t, name)
            out.append(Decl(t, name, NewArr(t, [Lit("int", 3)])))
            for j in range(3):
                out.append(Ex(Assign(Idx(v, [Lit("int", j)]), "", g.lit(t.elem))))
        else:
            out.append(Decl(t, name, g.lit(t)))
            v = Var(t, name)
        return out, v

    def fill(self, g, v):
        out = []
        for t, n in v.t.fields:
            f = Fld(v, t, n)
            if isinstance(t, StructT):
                out += self.fill(g, f)
            else:
                out.append(Ex(Assign(f, "", g.lit(t))))
        return out

    def dump(self, v):
        """Prints everything reachable from v."""
        t = v.t
        if isinstance(t, (StructT, ClassT)):
            r = []
            for ft, fn in t.fields:
                r += self.dump(Fld(v, ft, fn))
            return r
        if isinstance(t, ArrT):
            return [Print(LenE(v))] + [Print(Idx(v, [Lit("int", j)])) for j in range(3)]
        return [Print(v)]

    def method(self):
        s = self.s
        self.k += 1
        k = self.k
        cls = s.choice(self.classes) if s.p(30) else None
        over = None
        if self.methods and s.p(35):
            over = s.choice(self.methods)
            cls = over.cls if isinstance(over, IM) else None
        ret = s.weighted([(5, "void"), (10, "prim"), (4, "rich")])
        if ret == "prim":
            ret = s.choice(PRIM)
        elif ret == "rich":
            ret = s.choice(self.types())
        prev = [m for m in self.methods]
        sg = SG(s, prev, types=["int", "int", "long", "bool", "byte", "short", "uint", "double", "char"], effects=True,
                exprdepth=2, ret=None, use_float=False, prefix="",
                weights=dict(for_=1, while_=1, do_=0, call=4, if_=5))
        g = sg.g
        g.__class__ = CG
        g.this_cls = cls
        ps = []
        for j in s.many(0, s.weighted([(6, 4), (2, 9)]), 80):
            t = self.ptype()
            mode = s.weighted([(6, ""), (3, "ref"), (1, "out")])
            ps.append(Param(t, "p%d" % j, mode))
        name = over.name if over else "F%d" % k
        host = cls
        if over:
            sig = [str(p.t) for p in ps]
            for m in self.methods:
                if m.name == name and [str(p.t) for p in m.params] == sig:
                    name = "F%d" % k
                    break
        rec = None
        if s.p(35) and name == "F%d" % k:
            rec = Param("int", "rd", "")
            ps.insert(s.i(0, len(ps)), rec)
        body = []
        for p in ps:
            v = Var(p.t, p.name)
            if p is rec:
                g.readonly.add("rd")
                g.add("int", "rd")
                continue
            if p.mode == "out":
                st, _ = self.new_local(sg, p.t, p.name)
                if isinstance(st[0], SDecl):
                    st = [Ex(Assign(v, "", New(p.t)))] + st[1:]
                else:
                    st = [Ex(Assign(v, "", st[0].e))] + st[1:]
                body += st
            g.vars.setdefault(p.t, []).append(v)
            self.places(g, v)
        if cls:
            for ft, fn in cls.fields:
                if not isinstance(ft, StructT):
                    g.vars.setdefault(ft, []).append(Fld(This(cls, implicit=s.p(60)), ft, fn))
        m = IM(cls, name, ret, ps, body, "public") if cls else Method(name, ret, ps, body, "public static")
        for j in s.many(0, 3):
            st, v = self.new_local(sg, self.ptype(), "l%d" % j)
            body += st
            g.vars.setdefault(v.t, []).append(v)
            self.places(g, v)
        body += sg.stmts(2, 1, 4)
        body += self.rich_stmts(g)
        if rec:
            # locals must survive the recursive call
            keep = s.choice(["int", "long", "short", "double", "byte"])
            body.append(Decl(keep, "keep", g.e(keep, 1)))
            target = m
            partner = [x for x in self.methods if getattr(x, "rec", None) and not isinstance(x, IM)]
            c = None
            with_args = []
            for p in m.params:
                if p is rec:
                    with_args.append(Arg(Bin("-", Var("int", "rd"), Lit("int", 1))))
                else:
                    a = g.arg(p, 1)
                    with_args.append(a)
            if all(a is not None for a in with_args):
                c = MCall(m, with_args, This(cls, implicit=s.p(60))) if cls else Call(m, with_args)
                st = [Ex(c)]
                if isinstance(ret, str) and ret != "void":
                    st = [Print(c)]
                body.append(If(Bin(">", Var("int", "rd"), Lit("int", 0)), Blk(st)))
            body.append(Print(Var(keep, "keep")))
            m.rec = rec
        if s.p(60):
            for p in ps:
                if s.p(50) and p is not rec:
                    body += self.dump(Var(p.t, p.name))
        if ret != "void":
            if isinstance(ret, str):
                body.append(Return(g.e(ret, 2), ret))
            else:
                e = g.rich_e(ret, 1)
                if e is None:
                    st, v = self.new_local(sg, ret, "rv")
                    body += st
                    e = v
                body.append(Return(e, ret))
        m.body = body
        if cls:
            cls.methods.append(m)
        self.methods.append(m)
        return m

    def rich_stmts(self, g):
        """Assignments of whole structs, objects and arrays; member selection on results."""
        s = self.s
        out = []
        for _ in s.many(0, 3, 60):
            t = s.choice(self.types())
            k = s.weighted([(3, "assign"), (2, "member"), (1, "new")])
            vs = [v for v in g.vars.get(t, []) if isinstance(v, (Var, Fld))]
            if k == "assign" and vs:
                e = g.rich_e(t, 2)
                if e is not None:
                    out.append(Ex(Assign(s.choice(vs), "", e)))
            elif k == "member":
                e = g.rich_e(t, 2)
                if e is None or isinstance(t, ArrT):
                    continue
                fs = [(ft, fn) for ft, fn in t.fields if not isinstance(ft, StructT)]
                if fs:
                    ft, fn = s.choice(fs)
                    out.append(Print(Fld(e, ft, fn)))
            elif k == "new" and vs and isinstance(t, ClassT):
                out.append(Ex(Assign(s.choice(vs), "", New(t))))
        return out


class SDecl(Decl):
    """A struct variable declared without a value; its fields are all set afterwards."""

    def __init__(self, t, name):
        Decl.__init__(self, t, name)

    def run(self, fr):
        fr.slots[self.name] = [self.t.new()]


def gen(s):
    w = World(s)
    for _ in range(s.i(3, 9)):
        w.method()
    sg = SG(s, [], exprdepth=1)
    g = sg.g
    g.__class__ = CG
    main, vs = [], []
    for j in range(s.i(3, 8)):
        st, v = w.new_local(sg, w.ptype(), "v%d" % j)
        main += st
        vs.append(v)
        g.vars.setdefault(v.t, []).append(v)
        w.places(g, v)
    for t in w.types():
        if t not in g.vars:
            st, v = w.new_local(sg, t, "w_%s" % (t.name if not isinstance(t, ArrT) else t.elem + "s"))
            main += st
            vs.append(v)
            g.vars.setdefault(v.t, []).append(v)
            w.places(g, v)
    refs, ncall = 0, 0
    for m in w.methods:
        for _ in range(s.i(1, 2)):
            # every ref parameter needs a variable
            for p in m.params:
                if p.mode and g.refvar(p.t) is None:
                    st, v = w.new_local(sg, p.t, "x%d" % len(vs))
                    main += st
                    vs.append(v)
                    g.vars.setdefault(v.t, []).append(v)
                    w.places(g, v)
            g.funcs = list(w.methods[:w.methods.index(m)])
            c = g.mkcall(m, 2)
            if c is None:
                continue
            for k, p in enumerate(m.params):
                if getattr(m, "rec", None) is p:
                    c.args[k] = Arg(Lit("int", s.i(0, 3)))
            refs += any(p.mode for p in m.params)
            ncall += 1
            if m.ret == "void" or s.p(15):
                main.append(Ex(c))
            elif isinstance(m.ret, str):
                main.append(Print(c))
            elif isinstance(m.ret, ArrT):
                main.append(Print(LenE(c)))
            elif s.p(50):
                fs = [(ft, fn) for ft, fn in m.ret.fields if not isinstance(ft, StructT)]
                if fs:
                    ft, fn = s.choice(fs)
                    main.append(Print(Fld(c, ft, fn)))
                else:
                    main.append(Ex(c))
            else:
                n = "r%d" % len(main)
                main.append(Decl(m.ret, n, c))
                main += w.dump(Var(m.ret, n))
            touched = [v for v in vs if s.p(60)]
            for v in touched:
                main += w.dump(v)
    mm = Method("Run", "void", [], main)
    text, out, mc = program([mm] + [m for m in w.methods if not isinstance(m, IM)], [Ex(Call(mm, []))],
                            "\n\n".join(t.tx() for t in w.structs + w.classes), limit=30000)
    return run_case(text, out, units=ncall, nontrivial=refs >= 1 and ncall >= 5)
