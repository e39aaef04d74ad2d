"""C10: array elements are independent, bounds are checked, and lengths and ranks are kept."""
from vlib.engine import Reject
from vlib.lang import *
from vlib.objs import *
from vlib.exprgen import Gen, value
from vlib.stmtgen import program
from props.c09 import SameE, all_methods

QUICK, THOROUGH = 1500, 20000
RULE = ("a case is a program with a random history over 2 to 6 arrays of rank 1 to 3 with elements of primitive, enum, "
        "string, struct, class, interface or object types: creation (with lengths 0 to 12, sometimes 300), initialisers, "
        "loads, stores, compound operators, aliasing, copies in loops, calls that take and return arrays, arrays in fields "
        "and properties, accesses outside the bounds inside try blocks, and at the end a dump of all elements; non-trivial "
        "if it has at least 12 operations, of which one is on an array of rank above 1 or on struct elements, and one "
        "access outside the bounds")
ASSUME = ["a store evaluates the right-hand side before the array and the index; index expressions with side effects are "
          "used only where the order cannot matter",
          "not generated: arrays of arrays, negative lengths, access to a null array, struct elements in initialisers, "
          "compound assignment with an index that has side effects, a zero length in a dimension other than the first"]

PRIM = ["int", "int", "long", "byte", "sbyte", "short", "ushort", "uint", "ulong", "char", "bool", "double", "float",
        "string"]


class NewArrI(E):
    """new T[2, 3] { { .. }, .. }"""

    def __init__(self, t, elems, shape):
        self.t, self.init = t, ArrInit(t, elems, shape)
        self.shape = shape

    def tx(self):
        return "new %s[%s] %s" % (self.t.elem, ", ".join(str(d) for d in self.shape), self.init.tx())

    def ev(self, fr):
        return self.init.ev(fr)


class H:
    def __init__(self, s):
        self.s = s
        self.mc = Machine(90000)
        self.fr = Frame(self.mc)
        self.main = []
        self.sink = self.main
        self.n = 0
        self.types, self.statics = [], []
        self.rich = self.oob = 0
        self.arrs = []          # Var
        self.fns = {}
        self.world()
        self.ints = {}
        for t in ["int", "int", s.choice(["byte", "short", "sbyte", "ushort"]), s.choice(["long", "uint", "ulong", "int"])]:
            v = Var(t, self.nm("i"))
            self.emit(Decl(t, v.name, Lit(t, 0) if t == "int" else Cast(t, Lit("int", 0))))
            self.ints.setdefault(t, []).append(v)

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def emit(self, st):
        self.sink.append(st)
        st.run(self.fr)

    def ev(self, e):
        return e.ev(self.fr)

    # ------------------------------------------------------------ types
    def world(self):
        s = self.s
        f = [(s.choice(PRIM), self.nm("f")) for _ in range(s.i(1, 4))]
        self.S = StructT("S", f)
        if s.p(40):
            b = []
            x = s.choice(f)
            if is_int(x[0]):
                b.append(Ex(IncDec(Fld(This(self.S, s.p(50)), x[0], x[1]), "++", False)))
            b.append(Return(Fld(This(self.S, s.p(50)), x[0], x[1]), x[0]))
            m = Method("M", x[0], [], b, "public")
            self.S.methods.append(m)
        self.I = IfaceT("I")
        im = IMethod(self.I, "F", "int", [])
        self.I.methods.append(im)
        self.C = ClassT("C", None, [("int", "v"), (s.choice(PRIM), "w")])
        self.C.ifaces = [self.I]
        m = VMethod(self.C, "F", "int", [], [Return(Bin("+", Fld(This(self.C, True), "int", "v"), Lit("int", 1)), "int")],
                    "virtual")
        self.C.methods.append(m)
        c = Ctor(self.C, [Param("int", "p")], [Ex(Assign(Fld(This(self.C, True), "int", "v"), "", Var("int", "p")))])
        self.C.ctors.append(c)
        self.D = ClassT("D", self.C, [(s.choice(PRIM), "z")])
        m = VMethod(self.D, "F", "int", [], [Return(Bin("-", Fld(This(self.D, True), "int", "v"), Lit("int", 9)), "int")],
                    "override", m)
        self.D.methods.append(m)
        c2 = Ctor(self.D, [Param("int", "p")], [])
        c2.base_ctor, c2.base_args = c, [Var("int", "p")]
        self.D.ctors.append(c2)
        self.En = EnumT("En", [("A", 0, None), ("B", 5, "5"), ("C", 6, None)])
        # a class that holds arrays
        self.K = ClassT("K", None, [])
        for _ in range(s.i(1, 3)):
            self.K.fields.append((arr_t(self.elem(), s.weighted([(5, 1), (2, 2), (1, 3)])), self.nm("a")))
        if s.p(60):
            p = Prop(arr_t(self.elem(), 1), "Q", [], [])
            p.auto = True
            self.K.props.append(p)
        self.types = [self.S, self.I, self.C, self.D, self.En, self.K]

    def elem(self):
        s = self.s
        return s.weighted([(8, s.choice(PRIM)), (3, self.S), (2, self.C), (1, self.I), (1, self.En), (1, OBJECT)])

    # ------------------------------------------------------------ expressions
    def gen(self, effects=False):
        """Primitive expressions over elements and index variables."""
        s = self.s
        g = Gen(s, {}, [], effects=effects, allow_float=False)
        for t, vs in self.ints.items():
            g.vars.setdefault(t, []).extend(vs)
        for _ in range(5):
            p = self.place(lambda t: isinstance(t, str), plain=True)
            if p is not None:
                g.vars.setdefault(p.t, []).append(p)
        return g

    def idx(self, k, a, d, plain=False):
        """An int expression with the value k (dimension d of array a)."""
        s = self.s
        w = s.draw(10)
        if plain or w < 4:
            return Lit("int", k)
        if w < 6:
            # a variable that is set first
            ts = [t for t in self.ints if lo(t) <= k <= hi(t)]
            t = s.choice(sorted(ts))
            v = s.choice(self.ints[t])
            if v in self.used:
                return Lit("int", k)
            self.used.append(v)
            c = Lit("int", k)
            self.emit(Ex(Assign(v, "", c if t == "int" else Cast(t, Paren(c) if k < 0 else c))))
            return v
        if w < 7:
            n = LenE(a, "GetLength", Lit("int", d)) if len(self.ev(a).dims) > 1 or s.p(40) else LenE(a)
            return Bin("-", n, Lit("int", self.ev(n) - k)) if self.ev(n) >= k else Bin("+", n, Lit("int", k - self.ev(n)))
        if w < 8:
            # the value of an element
            p = self.place(lambda t: t in ("int",), plain=True)
            if p is not None:
                x = self.ev(p)
                dv = k - x
                if abs(dv) < 1 << 30:
                    return Bin("+", p, Lit("int", dv)) if dv >= 0 else Bin("-", p, Lit("int", -dv))
            return Lit("int", k)
        if w < 9:
            j = s.i(-9, 9)
            return Bin("+", Lit("int", k - j), Lit("int", j)) if j >= 0 and k - j >= 0 else Lit("int", k)
        c = s.choice([2, 3, 4])
        v = self.ints["int"][0]
        if v in self.used:
            return Lit("int", k)
        self.used.append(v)
        self.emit(Ex(Assign(v, "", Lit("int", abs(k) // c))))
        r = Bin("*", v, Lit("int", c))
        dv = k - abs(k) // c * c
        return Bin("+", r, Lit("int", dv)) if dv >= 0 else Bin("-", r, Lit("int", -dv))

    def array(self, want=None):
        """An expression that denotes a non-null array."""
        s = self.s
        c = []
        for v in self.arrs:
            if isinstance(v.t, ArrT):
                c.append(v)
            else:
                o = self.ev(v)
                if o is None:
                    continue
                c += [Fld(v, ft, fn) for ft, fn in self.K.fields]
                c += [PropE(v, p) for p in self.K.props]
        c = [a for a in c if self.ev(a) is not None and (want is None or want(a.t))]
        return s.choice(c) if c else None

    def at(self, a, plain=False):
        """A valid element of array a, or None when it is empty."""
        s = self.s
        v = self.ev(a)
        if not v.v:
            return None
        ix = []
        for d, n in enumerate(v.dims):
            k = s.weighted([(2, 0), (2, n - 1), (3, s.draw(n))])
            ix.append(self.idx(k, a, d, plain))
        return Idx(a, ix)

    def place(self, want, plain=False):
        """An element, or a field of an element, of a wanted type."""
        s = self.s
        for _ in range(5):
            a = self.array()
            if a is None:
                return None
            if not self.ev(a).v:
                continue
            et = a.t.elem
            sub_ = []
            if isinstance(et, (StructT, ClassT)):
                sub_ = [(ft, fn) for ft, fn in et.all_fields() if want(ft)]
            if not want(et) and not sub_:
                continue
            e = self.at(a, plain)
            if e is None:
                continue
            if want(et):
                if not sub_ or s.p(50):
                    return e
            if self.ev(e) is None:
                continue
            ft, fn = s.choice(sub_)
            return Fld(e, ft, fn)
        return None

    def value(self, t, d=1):
        s = self.s
        if isinstance(t, str):
            if t == "string" and s.p(50):
                return Lit("string", value(s, "string"))
            return self.gen().e(t, d)
        if isinstance(t, EnumT):
            n, v, _ = s.choice(t.items)
            p = self.place(lambda x: x is t, True)
            return p if p is not None and s.p(40) else Raw(t, "En." + n, lambda fr, v=v: v)
        if t is OBJECT:
            k = s.draw(4)
            if k == 0:
                return Conv(OBJECT, self.gen().e(s.choice(["int", "long", "double", "bool", "byte", "char"]), 0))
            if k == 1:
                return Conv(OBJECT, Lit("string", value(s, "string")))
            if k == 2:
                return Conv(OBJECT, self.value(self.C, d))
            p = self.place(lambda x: x is OBJECT, True)
            return p if p is not None else Null(OBJECT)
        if t is self.I:
            return Conv(self.I, self.value(self.C, d))
        if isinstance(t, ClassT):
            k = s.draw(6)
            p = self.place(lambda x: x is t, True)
            if k < 3 and p is not None:
                return p
            if k == 3:
                return Null(t)
            c = s.choice([t] + ([self.D] if t is self.C else []))
            return New(c, c.ctors[0], [Arg(self.gen().e("int", 0))])
        if isinstance(t, StructT):
            p = self.place(lambda x: x is t, True)
            if p is not None and s.p(75):
                return p
            return New(t)
        if isinstance(t, ArrT):
            a = self.array(lambda x: x is t)
            if a is not None and s.p(50):
                return a
            return self.newarr(t)
        raise Reject()

    def newarr(self, t):
        s = self.s
        dims = []
        for k in range(t.rank):
            dims.append(s.weighted([(1 if k == 0 else 0, 0), (8, s.i(1, 4 if t.rank > 1 else 8)), (1, 12), (1 if t.rank == 1 else 0, 70),
                                    (1 if t.rank == 1 and t.elem == "int" else 0, 300)]))
        n = 1
        for d in dims:
            n *= d
        if not isinstance(t.elem, StructT) and 0 < n <= 12 and s.p(35):
            es = []
            for _ in range(n):
                if t.elem is OBJECT or t.elem is self.I or t.elem is self.C:
                    c = s.choice([self.C, self.D])
                    e = New(c, c.ctors[0], [Arg(Lit("int", s.i(0, 99)))])
                    es.append(e if t.elem is self.C else Conv(t.elem, e))
                elif is_num(t.elem) and t.elem in ("long", "double") and s.p(30):
                    es.append(self.gen().e("int", 0))
                else:
                    es.append(self.value(t.elem, 0))
            self.s.tag("initialiser")
            return NewArrI(t, es, dims)
        xs = []
        for d in dims:
            k = s.draw(4)
            if k < 2:
                xs.append(Lit("int", d))
            elif k == 2:
                v = self.ints["int"][1]
                x = self.ev(v)
                dv = d - x
                if abs(dv) > 1 << 30:
                    xs.append(Lit("int", d))
                else:
                    xs.append(Bin("+", v, Lit("int", dv)) if dv >= 0 else Bin("-", v, Lit("int", -dv)))
            else:
                t2 = s.choice(["byte", "short", "long", "uint"])
                xs.append(Cast(t2, Lit("int", d)) if d < 128 else Lit("int", d))
        return NewArr(t, xs)

    # ------------------------------------------------------------ operations
    def op(self):
        s = self.s
        self.used = []
        k = s.weighted([(9, "store"), (4, "opas"), (6, "print"), (3, "new"), (2, "alias"), (5, "oob"), (3, "len"),
                        (3, "call"), (3, "loop"), (2, "fieldset"), (2, "method"), (2, "swap"), (2, "seq"), (1, "same"),
                        (2, "copyout"), (1, "cast"), (1, "coal")])
        getattr(self, "op_" + k)()
        s.tag("op:" + k)

    def note(self, e):
        while isinstance(e, Fld):
            e = e.obj
        if isinstance(e, Idx) and (len(e.idx) > 1 or isinstance(e.t, StructT)):
            self.rich += 1

    def op_new(self):
        s = self.s
        if len(self.arrs) >= 6:
            return self.op_store()
        if s.p(20):
            v = Var(self.K, self.nm("k"))
            self.emit(Decl(self.K, v.name, New(self.K)))
            self.arrs.append(v)
            for ft, fn in self.K.fields:
                self.emit(Ex(Assign(Fld(v, ft, fn), "", self.newarr(ft))))
            for p in self.K.props:
                self.emit(Ex(Assign(PropE(v, p), "", self.newarr(p.t))))
            return
        t = arr_t(self.elem(), s.weighted([(5, 1), (3, 2), (1, 3)]))
        v = Var(t, self.nm("a"))
        e = self.newarr(t)
        self.emit(Decl(t, v.name, e, "var" if s.p(15) else None))
        self.arrs.append(v)

    def op_store(self):
        p = self.place(lambda t: True)
        if p is None:
            return self.op_new()
        self.note(p)
        e = self.value(p.t, 2)
        a = Assign(p, "", e)
        if isinstance(p.t, str) and p.t != "string" and self.s.p(20):
            self.emit(Print(a))
        else:
            self.emit(Ex(a))

    def op_opas(self):
        s = self.s
        p = self.place(lambda t: isinstance(t, str) and is_num(t))
        if p is None:
            return self.op_new()
        self.note(p)
        if s.p(50) or not is_int(p.t):
            e = IncDec(p, s.choice(["++", "--"]), s.p(50))
        else:
            e = Assign(p, s.choice(["+", "-", "*", "^", "|", "&"]), self.gen().e(s.choice(["int", p.t]), 1))
        self.emit(Ex(e) if s.p(50) else Print(e))

    def op_print(self):
        p = self.place(lambda t: isinstance(t, str))
        if p is None:
            return self.op_new()
        self.note(p)
        if p.t != "string" and self.s.p(30):
            self.emit(Print(self.gen().e(p.t, 2)))
        else:
            self.emit(Print(p))

    def op_alias(self):
        a = self.array()
        if a is None:
            return self.op_new()
        cs = [v for v in self.arrs if isinstance(v, Var) and v.t is a.t and v is not a]
        if cs and self.s.p(50):
            self.emit(Ex(Assign(self.s.choice(cs), "", a)))
        elif len(self.arrs) < 6:
            v = Var(a.t, self.nm("a"))
            self.emit(Decl(a.t, v.name, a))
            self.arrs.append(v)

    def op_oob(self):
        """An access outside the bounds; the store must not happen."""
        s = self.s
        a = self.array()
        if a is None:
            return self.op_new()
        v = self.ev(a)
        bad = s.draw(len(v.dims))
        ix = []
        for d, n in enumerate(v.dims):
            if d == bad:
                k = s.weighted([(3, n), (3, -1), (1, n + s.i(1, 9)), (1, -s.i(2, 9)), (1, 2147483647), (1, -2147483647),
                                (1, n + 65536), (1, 1 << 30)])
                if k >= 0:
                    ix.append(self.idx(k, a, d) if k < 100 else Lit("int", k))
                else:
                    i = self.ints["int"][0]
                    self.emit(Ex(Assign(i, "", Un("-", Lit("int", -k)))))
                    self.used.append(i)
                    ix.append(i)
            else:
                if n == 0:
                    ix.append(Lit("int", s.i(0, 2)))
                else:
                    ix.append(self.idx(s.draw(n), a, d, plain=True))
        e = Idx(a, ix)
        self.oob += 1
        t = e.t
        body = []
        k = s.draw(3)
        if k == 0 and isinstance(t, str):
            body.append(Print(e))
        elif k == 1 and isinstance(t, str) and is_num(t):
            body.append(Ex(IncDec(e, "++", False)))
        elif isinstance(t, StructT) and s.p(50):
            ft, fn = t.fields[0]
            body.append(Print(Fld(e, ft, fn)))
        else:
            body.append(Ex(Assign(e, "", self.value(t, 0))))
        body.append(Print(Lit("string", "not reached")))
        ex = s.choice([OUT_OF_RANGE, OUT_OF_RANGE, EXCEPTION])
        nm = self.nm("e")
        cat = [(ex, nm, [Print(Lit("string", "out of range"))])]
        self.emit(Try(body, cat, [Print(Lit("string", "fin"))] if s.p(25) else None))

    def op_len(self):
        s = self.s
        a = self.array()
        if a is None:
            return self.op_new()
        v = self.ev(a)
        k = s.draw(4)
        if k == 0:
            e = LenE(a)
        elif k == 1:
            e = LenE(a, "Rank")
        else:
            e = LenE(a, "GetLength", Lit("int", s.draw(len(v.dims))))
        if s.p(30):
            e = Bin(s.choice(["+", "*", "-"]), e, LenE(a))
        self.emit(Print(e))

    def op_call(self):
        """A static method that changes its array (and replaces its own copy of the reference)."""
        s = self.s
        a = self.array()
        if a is None:
            return self.op_new()
        v = self.ev(a)
        key = (str(a.t),)
        if key not in self.fns:
            t = a.t
            x = Var(t, "x")
            b = []
            ret = s.choice(["void", "same", "int"])
            i0 = [LenE(x, "GetLength", Lit("int", d)) for d in range(t.rank)]
            last = Idx(x, [Bin("-", n, Lit("int", 1)) for n in i0])
            first = Idx(x, [Lit("int", 0)] * t.rank)
            b.append(Print(LenE(x)))
            inner = [Ex(Assign(first, "", last))]
            if isinstance(t.elem, str) and is_int(t.elem):
                inner.append(Ex(IncDec(last, "++", False)))
            if isinstance(t.elem, str):
                inner.append(Print(first))
            b.append(If(Bin(">", LenE(x), Lit("int", 0)), Blk(inner)))
            ref = ret == "void" and s.p(40)
            if s.p(40) or ref:
                b.append(Ex(Assign(x, "", NewArr(t, [Lit("int", 2)] * t.rank))))
            if ret == "same":
                b.append(Return(x, t))
            elif ret == "int":
                b.append(Return(LenE(x), "int"))
            m = Method(self.nm("F"), t if ret == "same" else ret, [Param(t, "x", "ref" if ref else "")], b)
            self.fns[key] = m
            self.statics.append(m)
        m = self.fns[key]
        if m.params[0].mode:
            if not isinstance(a, Var):
                return self.op_len()
            self.emit(Ex(Call(m, [Arg(a, "ref")])))
            return
        c = Call(m, [Arg(a)])
        if m.ret == "int":
            self.emit(Print(c))
        elif m.ret == "void" or s.p(40):
            self.emit(Ex(c))
        elif isinstance(a, Var) or s.p(50):
            self.emit(Print(LenE(c)))
        else:
            self.emit(Ex(Assign(a, "", c)))

    def op_loop(self):
        """A loop over one dimension."""
        s = self.s
        a = self.array()
        if a is None or not self.ev(a).v:
            return self.op_store()
        v = self.ev(a)
        d = s.draw(len(v.dims))
        i = Var("int", self.nm("j"))
        ix = [i if k == d else Lit("int", s.draw(n)) for k, n in enumerate(v.dims)]
        e = Idx(a, ix)
        b = []
        t = e.t
        if isinstance(t, StructT):
            ft, fn = s.choice(t.fields)
            e = Fld(e, ft, fn)
            t = ft
            self.rich += 1
        if len(ix) > 1:
            self.rich += 1
        if isinstance(t, str) and is_int(t):
            k = s.draw(4)
            if k == 0:
                b.append(Ex(Assign(e, "+", i)))
            elif k == 1:
                b.append(Ex(Assign(e, "", Bin("*", i, Lit("int", s.i(1, 9)))) if t == "int" else
                            Assign(e, "", Cast(t, Paren(Bin("*", i, Lit("int", s.i(1, 9))))))))
            elif k == 2 and isinstance(e, Idx):
                prev = Idx(a, [Bin("-", i, Lit("int", 1)) if q is i else q for q in ix])
                b.append(If(Bin(">", i, Lit("int", 0)), Blk([Ex(Assign(e, "+", prev))])))
            else:
                b.append(Ex(IncDec(e, "++", False)))
            b.append(Print(e)) if s.p(30) else None
        elif isinstance(t, str):
            b.append(Print(e))
        elif isinstance(t, (ClassT, StructT, EnumT)) and isinstance(e, Idx):
            b.append(Ex(Assign(e, "", Idx(a, [Lit("int", 0) if q is i else q for q in ix]))))
        else:
            b.append(Ex(Assign(e, "", self.value(t, 0))))
        n = LenE(a, "GetLength", Lit("int", d))
        if v.dims[d] > 20:
            n = Lit("int", 5)
        if s.p(70):
            st = For(Decl("int", i.name, Lit("int", 0)), Bin("<", i, n), IncDec(i, "++", False), Blk(b))
        else:
            st = For(Decl("int", i.name, Bin("-", n, Lit("int", 1))), Bin(">=", i, Lit("int", 0)), IncDec(i, "--", False),
                     Blk(b))
        self.emit(st)

    def op_fieldset(self):
        ks = [v for v in self.arrs if v.t is self.K]
        if not ks:
            return self.op_new()
        k = self.s.choice(ks)
        if self.K.props and self.s.p(40):
            self.emit(Ex(Assign(PropE(k, self.K.props[0]), "", self.value(self.K.props[0].t))))
        else:
            ft, fn = self.s.choice(self.K.fields)
            self.emit(Ex(Assign(Fld(k, ft, fn), "", self.value(ft))))

    def op_method(self):
        """A method of an element."""
        p = self.place(lambda t: t in (self.S, self.C, self.I))
        if p is None or self.ev(p) is None:
            return self.op_store()
        self.note(p)
        ms = p.t.methods
        if not ms:
            return self.op_store()
        self.emit(Print(MCall(ms[0], [], p)))

    def op_swap(self):
        s = self.s
        a = self.array()
        if a is None or not self.ev(a).v:
            return self.op_store()
        p, q = self.at(a), self.at(a)
        if p is None or q is None:
            return self.op_store()
        self.note(p)
        t = Var(p.t, self.nm("t"))
        self.emit(Decl(p.t, t.name, p))
        self.emit(Ex(Assign(p, "", q)))
        self.emit(Ex(Assign(q, "", t)))

    def op_seq(self):
        """a[i++] = x several times"""
        s = self.s
        a = self.array(lambda t: t.rank == 1 and isinstance(t.elem, str))
        if a is None or len(self.ev(a).v) < 2:
            return self.op_store()
        n = len(self.ev(a).v)
        i = self.ints["int"][0]
        k = s.i(2, min(n, 4))
        self.emit(Ex(Assign(i, "", Lit("int", s.i(0, n - k)))))
        for _ in range(k):
            self.emit(Ex(Assign(Idx(a, [IncDec(i, "++", False)]), "", Lit(a.t.elem, value(s, a.t.elem)))))
        for _ in range(s.i(1, k)):
            self.emit(Print(Idx(a, [IncDec(i, "--", True)])))
        self.emit(Print(i))

    def op_same(self):
        a, b = self.array(), None
        if a is None:
            return self.op_new()
        b = self.array(lambda t: t is a.t)
        self.emit(Print(SameE(self.s.choice(["==", "!="]), a, b)))
        if self.s.p(30):
            self.emit(Print(SameE("==", a, Null(a.t))))

    def op_copyout(self):
        """A struct element is copied to a variable: later changes are independent."""
        p = self.place(lambda t: t is self.S)
        if p is None:
            return self.op_store()
        self.note(p)
        v = Var(self.S, self.nm("s"))
        self.emit(Decl(self.S, v.name, p))
        ft, fn = self.s.choice(self.S.fields)
        self.emit(Ex(Assign(Fld(v, ft, fn), "", self.value(ft, 1))))
        self.emit(Print(Fld(p, ft, fn)))
        self.emit(Print(Fld(v, ft, fn)))
        if self.s.p(60):
            self.emit(Ex(Assign(p, "", v)))
            self.emit(Print(Fld(p, ft, fn)))

    def op_cast(self):
        """An array as an object and back."""
        a = self.array()
        if a is None:
            return self.op_new()
        o = Var(OBJECT, self.nm("o"))
        self.emit(Decl(OBJECT, o.name, Conv(OBJECT, a)))
        self.emit(Print(LenE(Paren(RefCast(a.t, o)))))

    def op_coal(self):
        a = self.array()
        if a is None or len(self.arrs) >= 6:
            return self.op_new()
        v = Var(a.t, self.nm("a"))
        self.emit(Decl(a.t, v.name, Null(a.t)))
        self.emit(Print(SameE("==", v, Null(a.t))))
        self.emit(Ex(Assign(v, "", a)))
        self.arrs.append(v)

    def dump(self):
        s = self.s
        seen = []
        for v in self.arrs:
            if isinstance(v.t, ArrT):
                xs = [v]
            else:
                xs = [Fld(v, ft, fn) for ft, fn in self.K.fields] + [PropE(v, p) for p in self.K.props]
            for a in xs:
                x = self.ev(a)
                if x is None or any(x is y for y in seen):
                    continue
                seen.append(x)
                self.emit(Print(LenE(a)))
                et = a.t.elem
                js = [Var("int", self.nm("j")) for _ in x.dims]
                e = Idx(a, js)
                if et is OBJECT:
                    body = [Print(SameE("==", e, Null(et)))]
                elif isinstance(et, str):
                    body = [Print(e)]
                elif isinstance(et, EnumT):
                    body = [Print(RawInt(e))]
                elif isinstance(et, StructT):
                    body = [Print(Fld(e, ft, fn)) for ft, fn in et.fields]
                else:
                    inner = [Print(MCall(et.methods[0], [], e))]
                    if isinstance(et, ClassT):
                        inner += [Print(Fld(e, ft, fn)) for ft, fn in et.fields]
                    body = [If(SameE("!=", e, Null(et)), Blk(inner), Blk([Print(Lit("string", "null"))]))]
                if et == "string":
                    pass
                st = Blk(body)
                for d in reversed(range(len(x.dims))):
                    n = LenE(a, "GetLength", Lit("int", d)) if x.dims[d] <= 80 else Lit("int", 40)
                    st = For(Decl("int", js[d].name, Lit("int", 0)), Bin("<", js[d], n),
                             IncDec(js[d], "++", False), st)
                self.emit(st)
                if len(self.mc.out) > 700:
                    return


class RawInt(E):
    t = "int"

    def __init__(self, e):
        self.e = e

    def tx(self):
        return "(int)(%s)" % self.e.tx()

    def ev(self, fr):
        return self.e.ev(fr)


def gen(s):
    h = H(s)
    h.used = []
    n = 0
    try:
        for _ in range(2):
            h.op_new()
        for _ in s.many(1, 40, 95):
            with s.span():
                h.op()
            n += 1
        h.dump()
    except (Undef, ThrowX, RecursionError):
        raise Reject()
    mm = Method("Run", "void", [], h.main)
    types = h.types
    if s.p(30):
        types = s.shuffle(types)
    text, out, mc = program([mm] + h.statics, [Ex(Call(mm, []))], "\n\n".join(t.tx() for t in types), limit=90000)
    return run_case(text, out, units=n, nontrivial=n >= 12 and h.rich > 0 and h.oob > 0)
