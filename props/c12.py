"""C12: generic types and methods behave as copies written out for each list of type arguments."""
from vlib.engine import Reject
from vlib.lang import *
from vlib.objs import *
from vlib.exprgen import value
from vlib.stmtgen import program
from props.c09 import SameE

QUICK, THOROUGH = 1500, 20000
RULE = ("a case is a program with 1 to 4 generic classes and structs (1 to 3 type parameters; fields of parameter, array and "
        "instantiated types; constructors; methods that set, get, swap, exchange, copy and count; generic methods; some closed "
        "and open derived classes and generic interfaces), generic static methods, and a history over variables of several "
        "instantiations (type arguments: all primitive types, strings, classes, structs, arrays and other instantiations); "
        "non-trivial if one template is used with at least 2 different lists of type arguments")
ASSUME = ["not generated: methods and properties returning a type parameter, virtual calls on open derived classes, generic "
          "delegates, generic classes implementing generic interfaces, type tests against instantiated types"]

PRIM = ["int", "long", "byte", "sbyte", "short", "ushort", "uint", "ulong", "char", "bool", "double", "float", "string"]
SETN = [0]


class Tmpl:
    """A generic type; every member is described with type expressions:
    ('p', i), ('t', type), ('a', te), ('i', k, [te...]), ('self',)"""

    def __init__(self, w, k, s):
        self.w, self.k = w, k
        self.name = "G%d" % k
        self.np = s.weighted([(5, 1), (4, 2), (1, 3)])
        self.pn = ["T", "U", "V"][:self.np] if s.p(70) else ["TKey", "T2", "Elem"][:self.np]
        self.struct = s.p(25)
        self.cache = {}
        self.fields = [(("t", "int"), "n%d" % k)]
        self.base = None
        cl = [t for t in w.tmpl if not t.struct]
        if cl and not self.struct and s.p(25):
            self.base = s.choice(cl)
            self.bargs = [self.te(s, 0) for _ in range(self.base.np)]
        for j in range(s.i(1, 4)):
            self.fields.append((("p", s.draw(self.np)) if s.p(50) else self.te(s, 2 if w.afld else 1), "f%d%d" % (k, j)))
        if not self.struct and s.p(40):
            self.fields.append((("self",), "next%d" % k))
        self.fields = s.shuffle(self.fields)
        self.ctor = [j for j, (te, n) in enumerate(self.fields) if te[0] in "pt" and s.p(60)]
        self.alen = s.i(1, 4)
        self.meths = []
        for j in range(s.i(1, 6)):
            self.meths.append((s.choice(["set", "get", "sw", "exch", "copy", "count", "put", "at", "gm", "mk", "loc", "set2", "fwd", "fwd",
                                         "other", "loop", "arr"]),
                               s.draw(8), s.draw(8), "M%d%d" % (k, j)))
        self.virtual = not self.struct and self.base is None and s.p(35)

    def derived(self):
        """The type or one of the types of its fields has an open generic base."""
        return self.base is not None or any(te[0] == "i" and te[1].derived() for te, _ in self.fields)

    def te(self, s, d):
        k = s.weighted([(5, "p"), (3, "t"), (2 if d > 1 else 0, "a"), (3 if d and self.w.tmpl else 0, "i")])
        if k == "p":
            return ("p", s.draw(self.np))
        if k == "t":
            return ("t", s.choice(PRIM + [self.w.C, self.w.S]))
        if k == "a":
            return ("a", self.te(s, 0))
        t = s.choice(self.w.tmpl)
        return ("i", t, [self.te(s, 0) for _ in range(t.np)])

    def real(self, te, args, me):
        if te[0] == "p":
            return args[te[1]]
        if te[0] == "t":
            return te[1]
        if te[0] == "a":
            return arr_t(self.real(te[1], args, me))
        if te[0] == "i":
            return te[1].inst([self.real(x, args, me) for x in te[2]])
        return me

    def inst(self, args):
        key = tuple(a if isinstance(a, str) else id(a) for a in args)
        if key in self.cache:
            return self.cache[key]
        c = (StructT if self.struct else ClassT)("%s<%s>" % (self.name, ", ".join(str(a) for a in args)))
        self.cache[key] = c
        c.tmpl, c.args = self, list(args)
        c.short = self.name
        if self.base:
            c.base = self.base.inst([self.real(x, args, c) for x in self.bargs])
        c.fields = [(self.real(te, args, c), n) for te, n in self.fields]
        self.build(c)
        if self.virtual:
            c.virt = VMethod(c, "Vir%d" % self.k, "int", [], [Return(Bin("+", Fld(This(c), "int", "n%d" % self.k), Lit("int", 7)), "int")], "virtual")
            c.methods.insert(0, c.virt)
        return c

    def build(self, c):
        th = This(c)
        n = Fld(th, "int", "n%d" % self.k)
        inc = Ex(IncDec(n, "++", False))
        # constructors
        if self.base:
            bc = c.base.ctors[0]
        ps, bd = [], []
        for j in self.ctor:
            t, f = c.fields[j]
            ps.append(Param(t, "p%d" % j))
            bd.append(Ex(Assign(Fld(th, t, f), "", Var(t, "p%d" % j))))
        for (te, _), (t, f) in zip(self.fields, c.fields):
            if te[0] == "a":
                bd.append(Ex(Assign(Fld(th, t, f), "", NewArr(t, [Lit("int", self.alen)]))))
        bps = []
        if self.base:
            bps = [Param(p.t, "q%d" % j) for j, p in enumerate(bc.params)]
        ct = Ctor(c, bps + ps, bd)
        ct.head0 = self.name
        if self.base:
            ct.base_ctor, ct.base_args = bc, [Var(p.t, p.name) for p in bps]
        if not self.struct or ct.params:
            c.ctors.append(ct)
        c.ops = []

        def pick(sel, a):
            fs = [f for j, f in enumerate(c.fields) if sel(self.fields[j][0])]
            return fs[a % len(fs)] if fs else None
        for kind, a, b, name in self.meths:
            f = pick(lambda te: te[0] == "p", a) if b % 3 else pick(lambda te: te[0] != "self", a)
            if kind in ("put", "at"):
                f = pick(lambda te: te[0] == "a", a)
            if kind == "mk":
                f = pick(lambda te: te[0] == "i", a)
            if f is None:
                continue
            t, fn = f
            F = Fld(th, t, fn)
            x = Var(t, "x")
            if kind == "set":
                m = Method(name, "void", [Param(t, "x")], [Ex(Assign(F, "", x)), inc], "public")
            elif kind == "set2":
                m = Method(name, "int", [Param(t, "x"), Param("int", "k")],
                           [If(Bin(">", Var("int", "k"), Lit("int", 0)), Ex(Assign(F, "", x)), inc), Return(n, "int")], "public")
            elif kind == "get":
                m = Method(name, "void", [Param(t, "x", "out")], [Ex(Assign(x, "", F)), inc], "public")
            elif kind == "sw":
                m = Method(name, "int", [Param(t, "x", "ref")],
                           [Decl(t, "t", F), Ex(Assign(F, "", x)), Ex(Assign(x, "", Var(t, "t"))), inc, Return(n, "int")], "public")
            elif kind == "loc":
                m = Method(name, "void", [Param(t, "x"), Param(t, "y", "out")],
                           [Decl(t, "t", x), Decl(t, "u", F), Ex(Assign(F, "", Var(t, "t"))),
                            Ex(Assign(Var(t, "y"), "", Var(t, "u")))], "public")
            elif kind == "exch":
                gs = [g for j, g in enumerate(c.fields) if self.fields[j][0] == self.fields[c.fields.index(f)][0] and g != f]
                if not gs:
                    continue
                G = Fld(th, t, gs[b % len(gs)][1])
                m = Method(name, "void", [], [Decl(t, "t", F), Ex(Assign(F, "", G)), Ex(Assign(G, "", Var(t, "t"))), inc], "public")
            elif kind == "copy":
                if self.struct:
                    continue
                m = Method(name, "void", [Param(c, "o")], [Ex(Assign(F, "", Fld(Var(c, "o"), t, fn)))], "public")
            elif kind == "count":
                m = Method(name, "int", [Param("int", "k")], [Ex(Assign(n, "+", Var("int", "k"))), Return(Bin("*", n, Lit("int", b + 2)), "int")], "public")
            elif kind == "put":
                x = Var(t.elem, "x")
                m = Method(name, "void", [Param("int", "i"), Param(t.elem, "x")], [Ex(Assign(Idx(F, [Var("int", "i")]), "", x)), inc], "public")
            elif kind == "at":
                x = Var(t.elem, "x")
                m = Method(name, "void", [Param("int", "i"), Param(t.elem, "x", "out")], [Ex(Assign(x, "", Idx(F, [Var("int", "i")])))], "public")
            elif kind in ("fwd", "other"):
                # calls a method declared before, on this object or on another one of the same type
                ms = [o for o in c.ops if o[0] in ("set", "set2", "get", "sw", "loc", "exch", "count", "fwd", "other", "loop", "arr")]
                if not ms:
                    continue
                m0 = ms[a % len(ms)][1]
                on = This(c, implicit=b % 2 == 0)
                pre, post = [], []
                if kind == "other":
                    if self.base or self.struct or len(c.ctors[0].params) > 3:
                        continue
                    on = Var(c, "o")
                    pre = [Decl(c, "o", New(c, c.ctors[0], [Arg(Fld(th, q.t, c.fields[j][1]))
                                                            for j, q in zip(self.ctor, c.ctors[0].params)]))]
                    post = [Ex(Assign(F, "", Fld(on, t, fn)))]
                call = lambda: MCall(m0, [Arg(Var(q.t, q.name), q.mode) for q in m0.params], on)
                if m0.ret == "int":
                    bd = pre + [Decl("int", "r", Bin(["+", "-", "*"][b % 3], call(), call()) if b > 3 else call()),
                                Ex(Assign(n, "+", Var("int", "r")))] + post + [Return(Var("int", "r"), "int")]
                else:
                    bd = pre + [Ex(call())] + ([inc, Ex(call())] if b > 4 else []) + post
                m = Method(name, m0.ret, [Param(q.t, q.name, q.mode) for q in m0.params], bd, "public")
            elif kind == "loop":
                i = Var("int", "i")
                m = Method(name, "int", [Param(t, "x")],
                           [For(Decl("int", "i", Lit("int", 0)), Bin("<", i, Lit("int", b)), IncDec(i, "++", False),
                                Blk([Decl(t, "t", F), Ex(Assign(F, "", x)), Ex(Assign(x, "", Var(t, "t"))), Ex(Assign(n, "+", i))])),
                            Return(n, "int")], "public")
            elif kind == "arr":
                if not self.w.afld or self.fields[c.fields.index(f)][0][0] == "a":
                    continue                                # arrays of arrays are not supported
                at = arr_t(t)
                A = Var(at, "v")
                m = Method(name, "int", [Param(t, "x"), Param(t, "y", "out")],
                           [Decl(at, "v", NewArr(at, [Lit("int", 2 + b)])), Ex(Assign(Idx(A, [Lit("int", b)]), "", x)),
                            Ex(Assign(Idx(A, [Lit("int", b + 1)]), "", F)),
                            Ex(Assign(F, "", Idx(A, [Lit("int", b)]))), Ex(Assign(Var(t, "y"), "", Idx(A, [Lit("int", a % (b + 2))]))),
                            Return(LenE(A), "int")], "public")
            elif kind == "gm":
                m = ("gm", name, n)
            elif kind == "mk":
                if t.ctors:
                    q = t.ctors[0].params
                    m = Method(name, "void", [Param(p.t, "a%d" % j) for j, p in enumerate(q)],
                               [Ex(Assign(F, "", New(t, t.ctors[0], [Arg(Var(p.t, "a%d" % j)) for j, p in enumerate(q)]))), inc], "public")
                else:
                    m = Method(name, "void", [], [Ex(Assign(F, "", New(t))), inc], "public")
            if isinstance(m, tuple):
                c.ops.append(("gm", m))
            else:
                c.methods.append(m)
                c.ops.append((kind, m, f))

    def gm(self, c, t, name):
        """The generic method of an instantiation at type t."""
        n = Fld(This(c), "int", "n%d" % self.k)
        return Method("%s<%s>" % (name, t), "void", [Param(t, "x"), Param(t, "y", "out")],
                      [Decl(t, "t", Var(t, "x")), Ex(Assign(Var(t, "y"), "", Var(t, "t"))), Ex(IncDec(n, "++", False))], "public")

    def tx(self):
        tp = [T(n) for n in self.pn]
        c = self.inst(tp)
        for kind, m, *_ in c.ops:
            if kind == "gm":
                W_ = T("W")
                c.methods.append(self.gm(c, W_, m[1]))
        for ct in c.ctors:
            ct.cls = T(self.name)
        return class_text(c)


class W:
    def __init__(self, s):
        self.C = ClassT("C", None, [("int", "v"), (s.choice(PRIM), "w")])
        ct = Ctor(self.C, [Param("int", "p")], [Ex(Assign(Fld(This(self.C), "int", "v"), "", Var("int", "p")))])
        self.C.ctors.append(ct)
        self.S = StructT("S", [("int", "a")] + [(s.choice(PRIM), "b%d" % j) for j in range(s.i(0, 3))])
        self.S.ctors.append(Ctor(self.S, [Param("int", "p")], [Ex(Assign(Fld(This(self.S), "int", "a"), "", Var("int", "p")))]))
        self.I = IfaceT("I")
        self.I.methods.append(IMethod(self.I, "Tag", "int", []))
        self.tmpl = []
        self.afld = s.p(60)         # fields of type T[], or arrays as type arguments
        for k in range(s.weighted([(2, 1), (4, 2), (3, 3), (1, 4)])):
            with s.span():
                self.tmpl.append(Tmpl(self, k, s))


class H:
    def __init__(self, s, w):
        self.s, self.w = s, w
        self.mc = Machine(60000)
        self.fr = Frame(self.mc)
        self.main, self.vars, self.n = [], [], 0
        self.statics = {}
        self.closed = []
        self.gif = None
        self.used = {}

    def emit(self, st):
        self.main.append(st)
        st.run(self.fr)

    def ev(self, e):
        return e.ev(self.fr)

    def nm(self):
        self.n += 1
        return "v%d" % self.n

    def declare(self, t, e):
        v = Var(t, self.nm())
        self.emit(Decl(t, v.name, e))
        self.vars.append(v)
        return v

    def ty(self, d=1):
        """A type argument."""
        s = self.s
        k = s.weighted([(8, "prim"), (3, "C"), (3, "S"), (0 if self.w.afld else 2, "arr"), (2 if d else 0, "inst")])
        if k == "prim":
            return s.choice(PRIM)
        if k == "inst" and all(t.derived() for t in self.w.tmpl):
            k = "C"
        if k == "C":
            return self.w.C
        if k == "S":
            return self.w.S
        if k == "arr":
            return arr_t(s.choice(PRIM))
        return self.inst(d - 1)

    def inst(self, d=1):
        s = self.s
        if self.used and s.p(50):
            cs = [c for l in self.used.values() for c in l if d or all(not hasattr(a, "tmpl") for a in c.args)]
            if cs:
                return s.choice(cs)
        t = s.choice(self.w.tmpl)
        c = t.inst([self.ty(0 if t.derived() else d) for _ in range(t.np)])
        l = self.used.setdefault(t.k, [])
        if c not in l:
            l.append(c)
        return c

    def val(self, t, d=2):
        s = self.s
        vs = [v for v in self.vars if v.t is t or v.t == t]
        if vs and s.p(50):
            return s.choice(vs)
        if isinstance(t, str):
            return Lit(t, value(s, t))
        if t is self.w.C or t is self.w.S:
            return New(t, t.ctors[0], [Arg(Lit("int", s.i(0, 999)))])
        if isinstance(t, ArrT):
            return NewArr(t, [Lit("int", s.i(0, 3))])
        if d <= 0 and isinstance(t, ClassT):
            return Null(t)
        return self.new(t, d)

    def new(self, t, d=2):
        if not t.ctors:
            return New(t)
        a = []
        for p in t.ctors[0].params:
            e = self.val(p.t, d - 1)
            if not isinstance(e, Lit) and isinstance(p.t, StructT) and not isinstance(e, Var):
                e = self.declare(p.t, e)
            a.append(Arg(e))
        return New(t, t.ctors[0], a)

    def var(self, t):
        vs = [v for v in self.vars if v.t is t or v.t == t]
        if vs and self.s.p(60):
            return self.s.choice(vs)
        return self.declare(t, self.val(t))

    def argv(self, t):
        e = self.val(t)
        if isinstance(e, Null) or isinstance(t, StructT) and not isinstance(e, Var):
            return self.declare(t, e)
        return e

    def insts(self):
        return [v for v in self.vars if hasattr(v.t, "tmpl") and self.ev(v) is not None]

    def op(self):
        s = self.s
        k = s.weighted([(5, "new"), (9, "call"), (4, "read"), (4, "write"), (4, "static"), (1, "copy"), (1, "closed"), (1, "gif"),
                        (1, "arr"), (1, "null"), (1, "base")])
        getattr(self, "op_" + k)()
        s.tag("op:" + k)

    def op_new(self):
        c = self.inst()
        if len(self.vars) < 30:
            self.declare(c, self.new(c))

    def target(self):
        v = self.insts()
        if not v:
            self.op_new()
            v = self.insts()
        return self.s.choice(v)

    def args(self, m):
        a = []
        taken = []
        for p in m.params:
            if p.mode:
                v = self.var(p.t)
                if v in taken:
                    v = self.declare(p.t, self.val(p.t))
                taken.append(v)
                a.append(Arg(v, p.mode))
            else:
                a.append(Arg(self.argv(p.t)))
        return a

    def op_call(self):
        s = self.s
        v = self.target()
        ops = [o for c in (v.t.chain() if isinstance(v.t, ClassT) else [v.t]) for o in getattr(c, "ops", [])]
        if not ops:
            return self.op_read()
        o = s.choice(ops)
        s.tag("m:" + o[0])
        if o[0] == "gm":
            t = self.ty(0)
            owner = [c for c in (v.t.chain() if isinstance(v.t, ClassT) else [v.t]) if o in getattr(c, "ops", [])][0]
            m = owner.tmpl.gm(owner, t, o[1][1])
            if s.p(40):
                m.name = o[1][1]
        else:
            m = o[1]
        if o[0] in ("put", "at"):
            A = Fld(v, o[2][0], o[2][1])
            if self.ev(A) is None:
                return
            L = len(self.ev(A).v)
            if not L:
                return
            a = self.args(m)
            a[0] = Arg(Lit("int", s.draw(L)))
        else:
            a = self.args(m)
        if o[0] == "copy":
            c = [x for x in self.vars if x.t is m.params[0].t and self.ev(x) is not None]
            if not c:
                return
            a = [Arg(s.choice(c))]
        e = MCall(m, a, v)
        self.emit(Print(e) if m.ret == "int" else Ex(e))
        for x in a:
            if x.mode:
                self.show(x.e, x.e.t, 1)

    def flds(self, t):
        return t.all_fields() if isinstance(t, ClassT) else t.fields

    def op_read(self):
        v = self.target()
        t, f = self.s.choice(self.flds(v.t))
        self.show(Fld(v, t, f), t, 1)

    def op_write(self):
        v = self.target()
        t, f = self.s.choice(self.flds(v.t))
        self.emit(Ex(Assign(Fld(v, t, f), "", self.val(t))))

    def op_copy(self):
        v = self.target()
        c = [x for x in self.vars if x.t is v.t and x is not v]
        if c:
            self.emit(Ex(Assign(self.s.choice(c), "", v)))
        elif len(self.vars) < 30:
            self.declare(v.t, v)

    def op_null(self):
        v = self.target()
        if isinstance(v.t, ClassT):
            self.emit(Print(SameE(self.s.choice(["==", "!="]), v, Null(v.t))))

    def op_base(self):
        """Through a variable of the instantiated base type."""
        v = self.target()
        if isinstance(v.t, ClassT) and v.t.base is not None and len(self.vars) < 30:
            b = self.declare(v.t.base, Conv(v.t.base, v))
            t, f = self.s.choice(self.flds(b.t))
            self.show(Fld(b, t, f), t, 1)

    def op_arr(self):
        """An array of instantiations."""
        s = self.s
        v = self.target()
        at = arr_t(v.t)
        n = s.i(1, 3)
        a = self.declare(at, NewArr(at, [Lit("int", n)]))
        for _ in range(s.i(1, 3)):
            self.emit(Ex(Assign(Idx(a, [Lit("int", s.draw(n))]), "", v)))
        t, f = s.choice(self.flds(v.t))
        self.emit(Ex(Assign(Fld(v, t, f), "", self.val(t))))
        self.show(a, at, 2)

    def op_closed(self):
        """class D : G<int> { ... } with an override."""
        s = self.s
        if len(self.closed) < 2:
            cs = [c for l in self.used.values() for c in l if isinstance(c, ClassT) and not any(isinstance(a, StructT) for a in c.args)]
            if not cs:
                return
            b = s.choice(cs)
            d = ClassT("D%d" % len(self.closed), b, [("int", "d%d" % len(self.closed))])
            ps = b.ctors[0].params
            ct = Ctor(d, [Param(p.t, "z%d" % j) for j, p in enumerate(ps)], [Ex(Assign(Fld(This(d), "int", d.fields[0][1]), "", Lit("int", s.i(1, 99))))])
            ct.base_ctor, ct.base_args = b.ctors[0], [Var(p.t, p.name) for p in ct.params]
            d.ctors.append(ct)
            if hasattr(b, "virt"):
                d.methods.append(VMethod(d, b.virt.name, "int", [], [Return(Lit("int", s.i(100, 199)), "int")], "override", b.virt))
            self.closed.append(d)
        d = s.choice(self.closed)
        x = self.declare(d, self.new(d))
        b = self.declare(d.base, Conv(d.base, x))
        if hasattr(d.base, "virt"):
            from props.c11 import ICall
            self.emit(Print(ICall(b, d.base.virt)))
        for t, f in d.all_fields():
            self.show(Fld(x, t, f), t, 0)

    def op_gif(self):
        """interface J<T> implemented by closed classes."""
        s = self.s
        if self.gif is None:
            self.gif = []
        if len(self.gif) < 3:
            t = self.ty(0)
            j = IfaceT("J<%s>" % t)
            q = ClassT("Q%d" % len(self.gif), None, [(t, "q"), ("int", "k")])
            q.ifaces = [j]
            q.j = j
            q.arg = t
            P = lambda m: Param(t, "x", m)
            j.methods = [IMethod(j, "Put", "int", [P("")]), IMethod(j, "Take", "void", [P("out")])]
            F = Fld(This(q), t, "q")
            K = Fld(This(q), "int", "k")
            q.methods = [Method("Put", "int", [P("")], [Ex(Assign(F, "", Var(t, "x"))), Ex(IncDec(K, "++", False)), Return(Bin("+", K, Lit("int", s.i(0, 99))), "int")], "public"),
                         Method("Take", "void", [P("out")], [Ex(Assign(Var(t, "x"), "", F))], "public")]
            self.gif.append(q)
        q = s.choice(self.gif)
        same = [g.j for g in self.gif if g.arg is q.arg or g.arg == q.arg]
        j = q.j
        x = Var(j, self.nm())
        self.emit(Decl(j, x.name, Conv(j, New(q))))
        self.emit(Print(MCall(j.methods[0], [Arg(self.argv(q.arg))], x)))
        o = self.var(q.arg)
        self.emit(Ex(MCall(j.methods[1], [Arg(o, "out")], x)))
        self.show(o, q.arg, 1)

    # -------------------------------------------------- generic static methods
    def static(self, name, targs):
        """(type parameters, method) of a generic static method at the given type arguments."""
        A = targs[0]
        B_ = targs[1] if len(targs) > 1 else None
        v = lambda t, n: Var(t, n)
        if name == "Sw":
            return Method("Sw", "void", [Param(A, "x", "ref"), Param(A, "y", "ref")],
                          [Decl(A, "t", v(A, "x")), Ex(Assign(v(A, "x"), "", v(A, "y"))), Ex(Assign(v(A, "y"), "", v(A, "t")))])
        if name == "Cp":
            return Method("Cp", "int", [Param(A, "x"), Param(B_, "y"), Param(A, "p", "out"), Param(B_, "q", "out")],
                          [Ex(Assign(v(A, "p"), "", v(A, "x"))), Ex(Assign(v(B_, "q"), "", v(B_, "y"))), Return(Lit("int", 5), "int")])
        if name == "Rot":
            sw = self.static("Sw", [A])
            sw.name = "Sw<%s>" % A
            return Method("Rot", "void", [Param(A, "x", "ref"), Param(A, "y", "ref"), Param(A, "z", "ref")],
                          [Ex(Call(sw, [Arg(v(A, "x"), "ref"), Arg(v(A, "y"), "ref")])),
                           Ex(Call(sw, [Arg(v(A, "y"), "ref"), Arg(v(A, "z"), "ref")]))])
        if name.startswith("Mk"):
            t = self.w.tmpl[int(name[2:])]
            c = t.inst(targs)
            ps = c.ctors[0].params
            return Method(name, c, [Param(p.t, "m%d" % j) for j, p in enumerate(ps)],
                          [Return(New(c, c.ctors[0], [Arg(v(p.t, "m%d" % j)) for j, p in enumerate(ps)]), c)])

    def op_static(self):
        s = self.s
        mk = [t for t in self.w.tmpl if not t.struct and t.base is None]
        name = s.choice(["Sw", "Sw", "Cp", "Rot"] + (["Mk%d" % s.choice(mk).k] if mk else []))
        np = {"Sw": 1, "Rot": 1, "Cp": 2}.get(name) or self.w.tmpl[int(name[2:])].np
        ta = [self.ty(0 if name.startswith("Mk") else 1) for _ in range(np)]
        self.statics.setdefault(name, np)
        if name == "Rot":
            self.statics.setdefault("Sw", 1)
        m = self.static(name, ta)
        if name.startswith("Mk") or s.p(60):
            m.name = "%s<%s>" % (name, ", ".join(str(t) for t in ta))
        if len(self.vars) > 30:
            return
        if name in ("Sw", "Rot"):
            vs = []
            for _ in m.params:
                x = self.var(ta[0])
                if x in vs:
                    x = self.declare(ta[0], self.val(ta[0]))
                vs.append(x)
            a = [Arg(x, "ref") for x in vs]
        else:
            a = self.args(m)
        e = Call(m, a)
        if name.startswith("Mk"):
            x = self.declare(m.ret, e)
            l = self.used.setdefault(m.ret.tmpl.k, [])
            if m.ret not in l:
                l.append(m.ret)
            t, f = s.choice(self.flds(x.t))
            self.show(Fld(x, t, f), t, 1)
            return
        self.emit(Print(e) if m.ret == "int" else Ex(e))
        for x in a:
            if x.mode:
                self.show(x.e, x.e.t, 1)

    # -------------------------------------------------- observation
    def show(self, e, t, d):
        if len(self.mc.out) > 500:
            return
        if isinstance(t, str):
            if t == "string" and self.ev(e) is None:
                return
            self.emit(Print(e))
            return
        if not isinstance(t, StructT):
            self.emit(Print(SameE("==", e, Null(t))))
            if self.ev(e) is None:
                return
        if isinstance(t, ArrT):
            self.emit(Print(LenE(e)))
            if d > 0:
                for j in range(min(len(self.ev(e).v), 3)):
                    self.show(Idx(e, [Lit("int", j)]), t.elem, d - 1)
            return
        if isinstance(t, IfaceT):
            return
        for ft, fn in self.flds(t):
            if d > 0 or isinstance(ft, str):
                self.show(Fld(e, ft, fn), ft, d - 1)

    def dump(self):
        for v in self.vars:
            self.show(v, v.t, 2)


def gen(s):
    w = W(s)
    h = H(s, w)
    n = 0
    try:
        for _ in s.many(1, 40, 96):
            with s.span():
                h.op()
            n += 1
        h.dump()
    except (Undef, ThrowX, RecursionError):
        raise Reject()
    mm = Method("Run", "void", [], h.main)
    types = [w.C.tx(), w.S.tx(), w.I.tx()] + [t.tx() for t in w.tmpl] + [d.tx() for d in h.closed]
    if h.gif:
        types.append("interface J<T>\n{\n    int Put(T x);\n    void Take(out T x);\n}")
        types += [q.tx() for q in h.gif]
    if s.p(40):
        types = s.shuffle(types)
    st = []
    for name, np in h.statics.items():
        tp = [T(x) for x in ["A", "B", "D"][:np]]
        m = h.static(name, tp)
        m.name = "%s<%s>" % (name, ", ".join(str(x) for x in tp))
        st.append(m)
    mc = Machine(60000)
    fr = Frame(mc)
    try:
        Ex(Call(mm, [])).run(fr)
    except (Undef, RecursionError):
        raise Reject()
    text = source("\n\n".join(m.tx() for m in [mm] + st), "Run();", "\n\n".join(types))
    return run_case(text, "".join(mc.out), units=n, nontrivial=any(len(l) > 1 for l in h.used.values()))
