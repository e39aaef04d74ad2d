"""C11: boxing, is, as and casts follow the run-time type and keep identity and value."""
from vlib.engine import Reject
from vlib.lang import *
from vlib.objs import *
from vlib.exprgen import Gen, value
from vlib.stmtgen import program
from props.c09 import SameE

QUICK, THOROUGH = 1500, 20000
RULE = ("a case is a program with a random type world (2 to 5 classes in a tree, or 4 to 10 in a tall one, 1 to 3 interfaces with inheritance, 1 to 2 "
        "structs, some implementing interfaces) and a history over variables, fields, properties and array elements of type "
        "object, of class and of interface types: boxing of every primitive type, of strings and structs, reference "
        "conversions, is, as, casts up, down and across, unboxing to the right and to wrong types inside try blocks, calls "
        "through the converted reference and identity tests; non-trivial if at least 3 casts or as succeed, one fails and "
        "one value is unboxed")
ASSUME = ["not generated: enums as objects, 'as string', tests of an array against another array type, unboxing a struct to "
          "another struct type, unboxing null"]

PRIM = ["int", "long", "byte", "sbyte", "short", "ushort", "uint", "ulong", "char", "bool", "double", "float"]


def unbox(v):
    return v.v if isinstance(v, Boxed) else v


class ICall(E):
    """A call through a class or interface reference."""

    def __init__(self, target, m):
        self.target, self.m, self.t = target, m, m.ret

    def tx(self):
        return "%s.%s()" % (sub(self.target, 15), self.m.name)

    def ev(self, fr):
        fr.m.tick()
        o = self.target.ev(fr)
        if o is None:
            raise Undef("null")
        o = unbox(o)
        return self.m.resolve(o).invoke(fr.m, o, [])


class W:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.ifaces, self.classes, self.structs = [], [], []
        for k in range(s.i(1, 3)):
            i = IfaceT("I%d" % k, [s.choice(self.ifaces)] if self.ifaces and s.p(50) else [])
            i.methods.append(IMethod(i, "F%d" % k, "int", []))
            self.ifaces.append(i)
        tall = s.p(25)
        for k in range(s.i(4, 10) if tall else s.i(2, 5)):
            b = self.classes[-1] if tall and self.classes and s.p(92) else \
                s.choice(self.classes) if self.classes and s.p(75) else None
            c = ClassT("C%d" % k, b, [("int", "v%d" % k)] if b is None else [])
            if s.p(50):
                c.fields.append((s.choice(PRIM + ["string"]), "w%d" % k))
            for i in self.ifaces:
                if s.p(45):
                    c.ifaces.append(i)
            self.members(c, k)
            f = self.root(c).fields[0][1]
            ct = Ctor(c, [Param("int", "p")], [])
            if b is None:
                ct.body = [Ex(Assign(Fld(This(c, s.p(50)), "int", f), "", Var("int", "p")))]
            else:
                ct.base_ctor, ct.base_args = b.ctors[0], [Bin("+", Var("int", "p"), Lit("int", s.i(0, 3)))]
            c.ctors.append(ct)
            self.classes.append(c)
        for k in range(s.i(1, 2)):
            st = StructT("S%d" % k, [("int", "a%d" % k)] +
                         [(s.choice(PRIM + ["string"]), "b%d%d" % (k, j)) for j in range(s.i(0, 3))])
            for i in self.ifaces:
                if s.p(50):
                    st.ifaces.append(i)
            for i in self.closure(st):
                for im in i.methods:
                    f = Fld(This(st, s.p(50)), "int", "a%d" % k)
                    b = [Ex(IncDec(f, "++", False))] if s.p(50) else []
                    b.append(Return(Bin(s.choice(["+", "*"]), f, Lit("int", s.i(2, 9))), "int"))
                    if im.name not in [m.name for m in st.methods]:
                        st.methods.append(Method(im.name, "int", [], b, "public"))
            ct = Ctor(st, [Param("int", "p")], [Ex(Assign(Fld(This(st, s.p(50)), "int", "a%d" % k), "", Var("int", "p")))])
            st.ctors.append(ct)
            self.structs.append(st)
        self.X = ClassT("X", None, [(OBJECT, "o"), (s.choice(self.classes), "c"), (s.choice(self.ifaces), "i")])
        p = Prop(OBJECT, "P", [], [])
        p.auto = True
        self.X.props.append(p)

    def root(self, c):
        while c.base is not None:
            c = c.base
        return c

    def closure(self, t):
        r = []
        for c in (list(t.chain()) if isinstance(t, ClassT) else [t]):
            for i in c.ifaces:
                for j in [i] + i.all_bases():
                    if j not in r:
                        r.append(j)
        return r

    def members(self, c, k):
        """Methods of the interfaces that the class (with its bases) needs, and some overrides."""
        s = self.s
        inherited = {m.name: m for b in (list(c.base.chain()) if c.base else []) for m in reversed(b.methods)}
        f = self.root(c).fields[0][1]
        for i in self.closure(c):
            for im in i.methods:
                e = Bin("+", Fld(This(c, s.p(50)), "int", f), Lit("int", 100 * k + s.i(1, 99)))
                b = [Return(e, "int")]
                if im.name in inherited:
                    if s.p(45):
                        m = VMethod(c, im.name, "int", [], b, "override", inherited[im.name])
                        c.methods.append(m)
                elif im.name not in [m.name for m in c.methods]:
                    c.methods.append(VMethod(c, im.name, "int", [], b, "virtual"))

    def all(self):
        return self.ifaces + self.classes + self.structs + [self.X]


class H:
    def __init__(self, s, w):
        self.s, self.w = s, w
        self.mc = Machine(60000)
        self.fr = Frame(self.mc)
        self.main = []
        self.n = 0
        self.vars = []
        self.ok = self.bad = self.unb = 0
        self.fns = []
        self.mkfns()
        x = self.declare(w.X, New(w.X))
        self.x = x
        t = arr_t(OBJECT)
        self.arr = self.declare(t, NewArr(t, [Lit("int", s.i(2, 4))]))
        self.len = len(self.ev(self.arr).v)

    def mkfns(self):
        """object Id(object), A Up(B), object BoxT(T)"""
        s = self.s
        self.ident = Method("Id", OBJECT, [Param(OBJECT, "p")], [Return(Var(OBJECT, "p"), OBJECT)])
        self.boxers = []
        for t in PRIM:
            m = Method("Box_" + t, OBJECT, [Param(t, "p")], [Return(Conv(OBJECT, Var(t, "p")), OBJECT)])
            self.boxers.append(m)
        t = s.choice(PRIM)
        self.unboxer = Method("Unbox", t, [Param(OBJECT, "p")], [Return(RefCast(t, Var(OBJECT, "p")), t)])

    def nm(self):
        self.n += 1
        return "v%d" % self.n

    def emit(self, st):
        self.main.append(st)
        st.run(self.fr)

    def ev(self, e):
        return e.ev(self.fr)

    def declare(self, t, e):
        v = Var(t, self.nm())
        self.emit(Decl(t, v.name, e))
        self.vars.append(v)
        return v

    def gen(self):
        g = Gen(self.s, {}, [], effects=False, allow_float=False)
        for v in self.vars:
            if isinstance(v.t, str):
                g.vars.setdefault(v.t, []).append(v)
        return g

    # ------------------------------------------------------------ places of reference types
    def refs(self, want=None, nonnull=False):
        c = [v for v in self.vars if v.t is OBJECT or isinstance(v.t, (ClassT, IfaceT)) and v.t is not self.w.X]
        c += [Fld(self.x, ft, fn) for ft, fn in self.w.X.fields] + [PropE(self.x, self.w.X.props[0])]
        c += [Idx(self.arr, [Lit("int", k)]) for k in range(self.len)]
        if want:
            c = [e for e in c if want(e.t)]
        if nonnull:
            c = [e for e in c if self.ev(e) is not None]
        return c

    def ref(self, want=None, nonnull=False):
        c = self.refs(want, nonnull)
        return self.s.choice(c) if c else None

    def fresh(self):
        """A new value convertible to object: (expression, static type)."""
        s = self.s
        k = s.weighted([(5, "prim"), (2, "string"), (6, "class"), (3, "struct"), (1, "arr")])
        if k == "prim":
            t = s.choice(PRIM)
            vs = [v for v in self.vars if v.t == t]
            if vs and s.p(40):
                return s.choice(vs)
            return self.gen().e(t, s.i(0, 1))
        if k == "string":
            return Lit("string", value(s, "string"))
        if k == "class":
            c = s.choice(self.w.classes)
            return New(c, c.ctors[0], [Arg(Lit("int", s.i(0, 99)))])
        if k == "struct":
            vs = [v for v in self.vars if isinstance(v.t, StructT)]
            if vs and s.p(70):
                return s.choice(vs)
            c = s.choice(self.w.structs)
            return self.declare(c, New(c, c.ctors[0], [Arg(Lit("int", s.i(0, 99)))]))
        return NewArr(arr_t(s.choice(["int", "double", "string", self.w.classes[0]])), [Lit("int", s.i(0, 5))])

    def convertible(self, t):
        """An expression whose static type converts implicitly to t (not t itself where possible)."""
        s = self.s
        if t is OBJECT:
            if s.p(35):
                return self.ref() or Null(OBJECT)
            return self.fresh()
        cs = [c for c in self.w.classes if c.is_a(t)]
        opts = self.refs(lambda x: x is not OBJECT and x.is_a(t))
        sv = [v for v in self.vars if isinstance(v.t, StructT) and isinstance(t, IfaceT) and
              any(i is t or t in i.all_bases() for i in v.t.ifaces)]
        if opts and s.p(45):
            return s.choice(opts)
        if sv and s.p(50):
            return s.choice(sv)
        if cs:
            c = s.choice(cs)
            return New(c, c.ctors[0], [Arg(Lit("int", s.i(0, 99)))])
        return s.choice(opts) if opts else Null(t)

    def conv(self, t, e):
        if e.t is t:
            return e
        if t is OBJECT and isinstance(e.t, IfaceT):
            return RefCast(OBJECT, e)
        return Conv(t, e)

    # ------------------------------------------------------------ operations
    def op(self):
        s = self.s
        k = s.weighted([(5, "decl"), (6, "assign"), (7, "is"), (6, "as"), (8, "cast"), (5, "unbox"), (4, "call"), (2, "same"),
                        (3, "mut"), (2, "pass"), (2, "expr"), (2, "chain")])
        getattr(self, "op_" + k)()
        s.tag("op:" + k)

    def op_decl(self):
        s = self.s
        if len(self.vars) > 22:
            return self.op_assign()
        k = s.draw(6)
        if k < 2:
            self.declare(OBJECT, self.conv(OBJECT, self.convertible(OBJECT)))
        elif k == 2:
            t = s.choice(PRIM)
            self.declare(t, Lit(t, value(s, t)) if s.p(50) else self.gen().e(t, 1))
        elif k == 3:
            c = s.choice(self.w.structs)
            self.declare(c, New(c, c.ctors[0], [Arg(Lit("int", s.i(0, 99)))]))
        else:
            t = s.choice(self.w.ifaces + self.w.classes)
            self.declare(t, self.conv(t, self.convertible(t)))

    def op_assign(self):
        p = self.ref()
        e = self.convertible(p.t)
        if isinstance(e.t, StructT) and isinstance(p, PropE):
            return self.op_decl()      # a struct passed as an argument of type object (recorded finding)
        self.emit(Ex(Assign(p, "", self.conv(p.t, e))))

    def target(self, v, allow_arr=True):
        """A type to test a value against; often one it has."""
        s = self.s
        r = rt_type(v) if v is not None else None
        c = []
        if isinstance(r, ClassT):
            c = list(r.chain()) + self.w.closure(r)
        elif isinstance(r, StructT):
            c = [r] + self.w.closure(r)
        elif isinstance(r, ArrT):
            return r
        elif r is not None:
            c = [r, s.choice(PRIM)]
        if c and s.p(60):
            return s.choice(c)
        return s.choice(self.w.classes + self.w.ifaces + self.w.structs + [s.choice(PRIM), "string", OBJECT])

    def legal(self, st, t):
        """The compiler accepts a test or cast of static type st to t."""
        return st is OBJECT or not isinstance(t, (str, StructT, ArrT))

    def op_is(self):
        p = self.ref()
        v = self.ev(p)
        t = self.target(v)
        if not self.legal(p.t, t):
            t = OBJECT
        e = Is(p, t)
        if self.s.p(25):
            e = Un("!", Paren(e))
        if self.s.p(25):
            q = self.ref()
            t2 = self.target(self.ev(q))
            if self.legal(q.t, t2):
                e = Bin(self.s.choice(["&&", "||"]), Paren(e), Paren(Is(q, t2)))
        if self.s.p(40):
            self.emit(If(e, Blk([Print(Lit("string", "yes"))]), Blk([Print(Lit("string", "no"))])))
        else:
            self.emit(Print(e))

    def reft(self, p):
        s = self.s
        v = self.ev(p)
        if isinstance(rt_type(v) if v is not None else None, ArrT):
            return None
        for _ in range(6):
            t = self.target(v)
            if isinstance(t, (ClassT, IfaceT)):
                return t
            if t is OBJECT and s.p(20):
                return t
        return s.choice(self.w.classes + self.w.ifaces)

    def some(self):
        """A place, mostly one that holds an object with a type of the world."""
        if self.s.p(75):
            c = [e for e in self.refs(nonnull=True) if isinstance(rt_type(self.ev(e)), (ClassT, StructT))]
            if c:
                return self.s.choice(c)
        return self.ref()

    def op_as(self):
        s = self.s
        p = self.some()
        t = self.reft(p)
        if t is None:
            return self.op_decl()
        e = As(p, t)
        if self.ev(e) is not None:
            self.ok += 1
        else:
            self.bad += 1
        k = s.draw(4)
        if k == 0:
            self.emit(Print(SameE(s.choice(["==", "!="]), Paren(e), Null(t))))
        elif k == 1 and self.ev(e) is not None and t is not OBJECT:
            self.use(Paren(e), t)
        elif k == 2 and self.refs(lambda x: x is t):
            self.emit(Ex(Assign(self.ref(lambda x: x is t), "", e)))
        elif len(self.vars) < 22:
            v = self.declare(t, e)
            self.emit(Print(SameE("==", v, Null(t))))
            if self.ev(v) is not None and t is not OBJECT:
                self.use(v, t)

    def use(self, e, t):
        """Observes an object through e of static type t."""
        s = self.s
        ms = []
        if isinstance(t, IfaceT):
            ms = [m for i in [t] + t.all_bases() for m in i.methods]
        elif isinstance(t, ClassT):
            ms = [m for c in t.chain() for m in c.methods]
        fs = t.all_fields() if isinstance(t, ClassT) else []
        if ms and (s.p(60) or not fs):
            self.emit(Print(ICall(e, s.choice(ms))))
        elif fs:
            ft, fn = s.choice(fs)
            self.emit(Print(Fld(e, ft, fn)))

    def op_cast(self):
        s = self.s
        p = self.some()
        t = self.reft(p)
        if t is None:
            return self.op_decl()
        e = RefCast(t, p)
        v = self.ev(p)
        good = v is None or type_is(v, t)
        if good and v is not None:
            self.ok += 1
        if not good:
            self.bad += 1
        if good and s.p(60):
            if v is not None and t is not OBJECT and s.p(50):
                self.use(Paren(e), t)
            elif len(self.vars) < 22:
                x = self.declare(t, e)
                if v is not None and t is not OBJECT:
                    self.use(x, t)
            else:
                self.emit(Print(SameE("==", Paren(e), Null(t))))
            return
        if t is OBJECT:
            return
        x = Var(t, self.nm())
        body = [Print(Lit("string", "try")), Decl(t, x.name, e), Print(Lit("string", "cast"))]
        if v is not None and s.p(50):
            ms = [m for m in (t.methods if isinstance(t, (IfaceT, ClassT)) else [])]
            if ms:
                body.append(Print(ICall(x, s.choice(ms))))
        self.tried(body)

    def tried(self, body):
        s = self.s
        ex = s.choice([INVALID_CAST, INVALID_CAST, EXCEPTION])
        cat = [(ex, self.nm(), [Print(Lit("string", "invalid cast"))])]
        if ex is INVALID_CAST and s.p(20):
            cat.insert(0, (OUT_OF_RANGE, self.nm(), [Print(Lit("string", "wrong handler"))]))
        self.emit(Try(body, cat, [Print(Lit("string", "finally"))] if s.p(20) else None))

    def op_unbox(self):
        s = self.s
        p = self.ref(lambda t: t is OBJECT, nonnull=True)
        if p is None:
            return self.op_decl()
        v = self.ev(p)
        r = rt_type(v)
        self.unb += 1
        if isinstance(r, str) and s.p(70):
            e = RefCast(r, p)
            k = s.draw(3)
            if k == 0 or r == "string":
                self.emit(Print(e))
            elif k == 1:
                self.declare(r, e)
            else:
                g = self.gen()
                g.vars.setdefault(r, []).append(Paren(e))
                if is_num(r) and r not in ("float", "double"):
                    self.emit(Print(Bin("+", Paren(e), Lit("int", s.i(0, 9))) if r not in ("ulong",) else e))
                else:
                    self.emit(Print(e))
            return
        if isinstance(r, StructT) and s.p(85):
            ft, fn = s.choice(r.fields)
            if s.p(50):
                self.emit(Print(Fld(Paren(RefCast(r, p)), ft, fn)))
            else:
                x = self.declare(r, RefCast(r, p))
                self.emit(Print(Fld(x, ft, fn)))
                self.emit(Ex(Assign(Fld(x, "int", r.fields[0][1]), "", Lit("int", s.i(0, 999)))))
                self.emit(Print(Fld(Paren(RefCast(r, p)), "int", r.fields[0][1])))
            return
        # a wrong type
        t = s.choice(PRIM + ["string"])
        x = Var(t, self.nm())
        if t == r:
            self.emit(Print(RefCast(t, p)))
            return
        self.bad += 1
        self.tried([Decl(t, x.name, RefCast(t, p)), Print(x)])

    def op_call(self):
        p = self.ref(lambda t: t is not OBJECT, nonnull=True)
        if p is None:
            return self.op_decl()
        self.use(p, p.t)

    def op_same(self):
        s = self.s
        p, q = self.ref(), self.ref()
        v, w_ = self.ev(p), self.ev(q)
        if p.t is not q.t and not (p.t is OBJECT or q.t is OBJECT or p.t.is_a(q.t) or q.t.is_a(p.t)):
            return self.op_is()
        if p.t is not q.t:
            # through object variables
            o1, o2 = self.declare(OBJECT, self.conv(OBJECT, p)), self.declare(OBJECT, self.conv(OBJECT, q))
            p, q = o1, o2
        self.emit(Print(SameE(s.choice(["==", "!="]), p, q)))

    def op_mut(self):
        """Changes something that was boxed or aliased, and looks again."""
        s = self.s
        vs = [v for v in self.vars if isinstance(v.t, StructT)]
        if vs and s.p(50):
            v = s.choice(vs)
            self.emit(Ex(Assign(Fld(v, "int", v.t.fields[0][1]), "", Lit("int", s.i(0, 9999)))))
            return
        ps = [v for v in self.vars if isinstance(v.t, str)]
        if ps and s.p(50):
            v = s.choice(ps)
            self.emit(Ex(Assign(v, "", self.gen().e(v.t, 1))))
            return
        p = self.ref(lambda t: isinstance(t, ClassT), nonnull=True)
        if p is not None:
            ft, fn = s.choice(p.t.all_fields())
            self.emit(Ex(Assign(Fld(p, ft, fn), "", Lit(ft, value(s, ft)))))

    def op_pass(self):
        """Through parameters and results of type object."""
        s = self.s
        k = s.draw(3)
        if k == 0:
            e = self.convertible(OBJECT)
            if isinstance(e.t, StructT):
                return self.op_assign()
            self.declare(OBJECT, Call(self.ident, [Arg(self.conv(OBJECT, e))]))
            if self.ident not in self.fns:
                self.fns.append(self.ident)
        elif k == 1:
            m = s.choice(self.boxers)
            if m not in self.fns:
                self.fns.append(m)
            t = m.params[0].t
            vs = [v for v in self.vars if v.t == t]
            a = s.choice(vs) if vs else self.declare(t, Lit(t, value(s, t)))
            self.declare(OBJECT, Call(m, [Arg(a)]))
        else:
            p = self.ref(lambda t: t is OBJECT, nonnull=True)
            if p is None:
                return self.op_decl()
            if self.unboxer not in self.fns:
                self.fns.append(self.unboxer)
            c = Call(self.unboxer, [Arg(p)])
            if rt_type(self.ev(p)) == self.unboxer.ret:
                self.emit(Print(c))
            else:
                self.bad += 1
                self.tried([Print(c)])

    def op_expr(self):
        """(T)(object)value"""
        s = self.s
        t = s.choice(PRIM)
        e = RefCast(t, Paren(ObjCast(self.gen().e(t, 1))))
        self.unb += 1
        self.emit(Print(e))

    def op_chain(self):
        """p = q = value"""
        t = self.s.choice([OBJECT] + self.w.classes + self.w.ifaces)
        ps = [p for p in self.refs(lambda x: x is t) if not isinstance(p, PropE)]
        if len(ps) < 2:
            return self.op_assign()
        a, b = self.s.choice(ps), self.s.choice(ps)
        if t is OBJECT:
            e = self.ref(lambda x: x is OBJECT)
        else:
            e = self.convertible(t)
            if isinstance(e.t, StructT):
                return self.op_assign()
            e = self.conv(t, e)
        self.emit(Ex(Assign(a, "", Assign(b, "", e))))

    def dump(self):
        for p in self.refs():
            v = self.ev(p)
            self.emit(Print(SameE("==", p, Null(p.t))))
            if v is None:
                continue
            r = rt_type(v)
            if p.t is OBJECT:
                if isinstance(r, str):
                    self.emit(Print(RefCast(r, p)))
                elif isinstance(r, (StructT, ClassT)):
                    for ft, fn in r.all_fields():
                        self.emit(Print(Fld(Paren(RefCast(r, p)), ft, fn)))
                elif isinstance(r, ArrT):
                    self.emit(Print(LenE(Paren(RefCast(r, p)))))
            else:
                self.use(p, p.t)
            if len(self.mc.out) > 400:
                return


class ObjCast(E):
    """(object)value"""
    prec = 14

    def __init__(self, a):
        self.a, self.t = a, OBJECT

    def tx(self):
        return "(object)(%s)" % self.a.tx()

    def ev(self, fr):
        return Conv(OBJECT, self.a).ev(fr)


def gen(s):
    w = W(s)
    h = H(s, w)
    n = 0
    try:
        for _ in range(3):
            h.op_decl()
        for _ in s.many(1, 45, 97):
            with s.span():
                h.op()
            n += 1
        h.dump()
    except (Undef, ThrowX, RecursionError):
        raise Reject()
    mm = Method("Run", "void", [], h.main)
    types = w.all()
    if s.p(40):
        types = s.shuffle(types)
    text, out, mc = program([mm] + h.fns, [Ex(Call(mm, []))], "\n\n".join(t.tx() for t in types), limit=60000)
    return run_case(text, out, units=n, nontrivial=h.ok >= 3 and h.bad >= 1 and h.unb >= 1)
