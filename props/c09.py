"""C09 objects and structs: histories of reads, writes, copies, links and calls against a heap model."""
from vlib.stmtgen import *
from vlib.objs import *
from props.c07 import IM

RULE = ("each case is 1..3 struct types (nested, with strings, object and array members, constructors and methods that change "
        "or return this), 2..4 classes (inheritance, initialisers, constructors that call base constructors, automatic and "
        "coded properties, methods that change, link and return objects) and a history of 15..60 operations on variables, "
        "fields, properties and elements reached by paths of up to 4 steps: assignment, copy, chained assignment, compound "
        "assignment, increments, replacement, null, calls on places and on results, passing to methods by value and by "
        "reference; every few operations part of the state is printed and at the end everything reachable and the "
        "identities of objects. Non-trivial: at least 10 operations on paths of two or more steps or whole structs.")
QUICK, THOROUGH = 1500, 15000
PRIM = ["int", "int", "long", "bool", "byte", "short", "uint", "ulong", "double", "float", "char", "sbyte", "ushort", "string"]


class Coal(E):
    """a ?? b"""
    prec = 2

    def __init__(self, a, b):
        self.a, self.b, self.t = a, b, a.t

    def tx(self):
        return "%s ?? %s" % (sub(self.a, 3), sub(self.b, 3))

    def ev(self, fr):
        v = self.a.ev(fr)
        return v if v is not None else self.b.ev(fr)


class SameE(E):
    """a == b of references"""
    t = "bool"
    prec = 7

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def tx(self):
        return "%s %s %s" % (sub(self.a, 8), self.op, sub(self.b, 8))

    def ev(self, fr):
        x, y = self.a.ev(fr), self.b.ev(fr)
        return (x is y) == (self.op == "==")


def subtype(a, b):
    if a is b:
        return True
    return isinstance(a, ClassT) and isinstance(b, ClassT) and a.is_a(b)


class W:
    def __init__(self, s):
        self.s = s
        self.k = 0
        self.structs, self.classes, self.statics = [], [], []
        self.gen_types()

    def nm(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    # ------------------------------------------------------------ types
    def gen_types(self):
        s = self.s
        ns, nc = s.i(1, 3), s.i(2, 4)
        self.classes = [ClassT("C%d" % k) for k in range(nc)]
        self.structs = [StructT("S%d" % k) for k in range(ns)]
        for k, c in enumerate(self.classes):
            if k and s.p(45):
                c.base = s.choice(self.classes[:k])
        self.arrs = [arr_t(s.choice(["int", "long", "byte", "short", "double"]))]
        self.arrs.append(arr_t(s.choice(self.structs)))
        if s.p(50):
            self.arrs.append(arr_t(s.choice(self.classes)))
        for k, st in enumerate(self.structs):
            st.fields = [(s.choice(PRIM), self.nm("f")) for _ in s.many(1, 4)]
            if k and s.p(60):
                st.fields.insert(s.i(0, len(st.fields)), (s.choice(self.structs[:k]), self.nm("f")))
            if s.p(35):
                st.fields.insert(s.i(0, len(st.fields)), (s.choice(self.classes), self.nm("f")))
            if s.p(20):
                st.fields.insert(s.i(0, len(st.fields)), (self.arrs[0], self.nm("f")))
        for c in self.classes:
            c.fields = [(s.choice(PRIM), self.nm("f")) for _ in s.many(0, 4)]
            for _ in s.many(0, 4, 60):
                t = s.weighted([(3, "s"), (4, "c"), (2, "a")])
                t = s.choice(self.structs if t == "s" else self.classes if t == "c" else self.arrs)
                c.fields.insert(s.i(0, len(c.fields)), (t, self.nm("f")))
            c.inits = []
            for t, n in c.fields:
                # small and unsigned integer types need an expression of that very type (recorded finding)
                if t in ("int", "long", "double", "bool", "char", "string") and s.p(35):
                    c.inits.append((n, Lit(t, value(s, t))))
                elif t in ("byte", "short", "sbyte", "ushort") and s.p(20):
                    c.inits.append((n, Cast(t, Lit("int", s.i(0, 100)))))
        for x in self.structs:
            self.members(x)
        done = []
        for c in self.classes:
            self.members(c)

    def own_gen(self, cls, params=(), d=2):
        """Expression generator inside a member: parameters and primitive members of this."""
        s = self.s
        g = Gen(s, {}, [], effects=True, allow_float=False)
        for p in params:
            if isinstance(p.t, str):
                g.vars.setdefault(p.t, []).append(Var(p.t, p.name))
            elif isinstance(p.t, StructT):
                for ft, fn in p.t.fields:
                    if isinstance(ft, str):
                        g.vars.setdefault(ft, []).append(Fld(Var(p.t, p.name), ft, fn))
        for ft, fn in (cls.all_fields()):
            if isinstance(ft, str):
                g.vars.setdefault(ft, []).append(Fld(This(cls, s.p(65)), ft, fn))
            elif isinstance(ft, StructT):
                for t2, n2 in ft.fields:
                    if isinstance(t2, str):
                        g.vars.setdefault(t2, []).append(Fld(Fld(This(cls, s.p(65)), ft, fn), t2, n2))
        return g

    def body(self, cls, params, lo_=1, hi_=4):
        """Statements that change this."""
        s = self.s
        g = self.own_gen(cls, params)
        out = []
        fs = cls.all_fields()
        for _ in s.many(lo_, hi_):
            if not fs:
                break
            k = s.weighted([(6, "set"), (3, "op"), (2, "print"), (3, "rich"), (2, "local")])
            if k == "rich":
                cand = [(t, n) for t, n in fs if not isinstance(t, str)]
                if not cand:
                    k = "set"
                else:
                    t, n = s.choice(cand)
                    src = [Var(p.t, p.name) for p in params if subtype(p.t, t)]
                    src += [Fld(This(cls, s.p(50)), t2, n2) for t2, n2 in fs if subtype(t2, t) and n2 != n]
                    if isinstance(t, ClassT) and subtype(cls, t):
                        src.append(This(cls))
                    if isinstance(t, ArrT):
                        src.append(NewArr(t, [Lit("int", s.i(1, 3))]))
                    if isinstance(t, StructT):
                        src.append(New(t))
                    if src:
                        out.append(Ex(Assign(Fld(This(cls, s.p(65)), t, n), "", s.choice(src))))
                    continue
            if k == "local":
                c2 = [(t, n) for t, n in fs if isinstance(t, StructT)]
                if c2:
                    t, n = s.choice(c2)
                    v = self.nm("l")
                    out.append(Decl(t, v, Fld(This(cls, s.p(50)), t, n)))
                    pf = [(t2, n2) for t2, n2 in t.fields if isinstance(t2, str)]
                    if pf:
                        t2, n2 = s.choice(pf)
                        out.append(Ex(Assign(Fld(Var(t, v), t2, n2), "", g.e(t2, 1))))
                        if s.p(50):
                            out.append(Ex(Assign(Fld(This(cls, s.p(50)), t, n), "", Var(t, v))))
                    continue
                k = "set"
            ts = [t for t in g.vars if is_num(t)] if k == "op" else list(g.vars)
            if not ts:
                continue
            t = s.choice(ts)
            v = s.choice(g.vars[t])
            if k == "print":
                out.append(Print(v))
            elif k == "op":
                out.append(Ex(IncDec(v, s.choice(["++", "--"]), s.p(50))) if s.p(40) or not is_int(t) else
                           Ex(Assign(v, s.choice(["+", "-", "*", "^", "|"]), g.e(s.choice(["int", "int", t]), 1))))
            else:
                out.append(Ex(Assign(v, "", g.e(t, 2))))
        return out

    def params(self, n=3):
        s = self.s
        ps = []
        for _ in s.many(0, n):
            t = s.weighted([(6, "p"), (2, "s"), (2, "c")])
            t = s.choice(PRIM) if t == "p" else s.choice(self.structs if t == "s" else self.classes)
            ps.append(Param(t, self.nm("p")))
        return ps

    def members(self, c):
        s = self.s
        isc = isinstance(c, ClassT)
        # constructors: distinct by number of parameters
        if s.p(65):
            lens = set()
            base = c.base if isc else None
            for k in s.many(1, 3, 50):
                ps = self.params()
                if not isc and not ps:
                    ps = [Param("int", self.nm("p"))]
                if len(ps) in lens:
                    continue
                lens.add(len(ps))
                b = []
                if isc and s.p(60):
                    b.append(Print(Lit("string", "new %s/%d" % (c.name, len(ps)))))
                b += self.body(c, ps, 1, 4)
                ct = Ctor(c, ps, b)
                if isc and base is not None and base.ctors:
                    bc = s.choice(base.ctors)
                    if bc.params or s.p(50):
                        args = self.base_args(c, ps, bc)
                        if args is None:
                            bc = next((x for x in base.ctors if not x.params), None)
                            args = []
                        if bc is None:
                            lens.discard(len(ps))
                            continue
                        ct.base_ctor, ct.base_args = bc, args
                    # otherwise the parameterless one is used
                c.ctors.append(ct)
        if isc and c.base is not None and c.base.ctors and not any(not x.params for x in c.base.ctors) and not c.ctors:
            bc = s.choice(c.base.ctors)
            args = self.base_args(c, [], bc)
            if args is None:
                c.base = None
            else:
                ct = Ctor(c, [], [])
                ct.base_ctor, ct.base_args = bc, args
                c.ctors.append(ct)
        # properties
        for _ in s.many(0, 3, 55):
            t = s.weighted([(6, "p"), (2, "s"), (2, "c"), (1, "a")])
            t = s.choice(PRIM) if t == "p" else s.choice(
                self.structs[:self.structs.index(c)] if t == "s" and not isc and c is not self.structs[0] else
                self.structs if t == "s" and isc else self.classes if t != "a" else self.arrs[:1])
            n = self.nm("P")
            same = [(ft, fn) for ft, fn in c.all_fields() if ft is t or ft == t]
            if s.p(40) or not same:
                p = Prop(t, n, [], [])
                p.auto = True
            else:
                ft, fn = s.choice(same)
                fld = Fld(This(c, s.p(70)), ft, fn)
                get, st = [], []
                if s.p(50):
                    get.append(Print(Lit("string", "get " + n)))
                g = self.own_gen(c)
                get.append(Return(g.e(t, 1) if isinstance(t, str) and s.p(30) else fld, t))
                if s.p(50):
                    st.append(Print(Lit("string", "set " + n)))
                if isinstance(t, str) and s.p(30):
                    st.append(Print(Var(t, "value")))
                st.append(Ex(Assign(fld, "", Var(t, "value"))))
                st += self.body(c, [Param(t, "value")] if isinstance(t, str) else [], 0, 1)
                p = Prop(t, n, get, st)
            c.props.append(p)
        # methods
        for _ in s.many(1, 4, 65):
            ps = self.params(3)
            r = s.weighted([(5, "void"), (4, "p"), (3, "this"), (3, "field")])
            b = self.body(c, ps, 1, 4)
            ret = "void"
            if r == "p":
                ret = s.choice(PRIM)
                b.append(Return(self.own_gen(c, ps).e(ret, 2), ret))
            elif r == "this":
                ret = c
                b.append(Return(This(c), c))
            elif r == "field":
                cand = [(ft, fn) for ft, fn in c.all_fields() if not isinstance(ft, str)]
                if cand:
                    ret, fn = s.choice(cand)
                    b.append(Return(Fld(This(c, s.p(50)), ret, fn), ret))
            m = IM(c, self.nm("M"), ret, ps, b)
            c.methods.append(m)
        if s.p(30):
            c.order = s.shuffle(range(len(c.fields) + len(c.props) + len(c.ctors) + len(c.methods)))

    def base_args(self, c, ps, bc):
        s = self.s
        g = Gen(s, {}, [], effects=False)
        for p in ps:
            if isinstance(p.t, str):
                g.vars.setdefault(p.t, []).append(Var(p.t, p.name))
        out = []
        for p in bc.params:
            if isinstance(p.t, str):
                out.append(g.e(p.t, 1))
            else:
                src = [Var(q.t, q.name) for q in ps if q.t is p.t]
                if src:
                    out.append(s.choice(src))
                elif isinstance(p.t, StructT):
                    out.append(New(p.t))
                else:
                    return None
        return out


def all_props(t):
    if isinstance(t, ClassT):
        return [p for c in t.chain() for p in c.props]
    return t.props


def all_methods(t):
    if isinstance(t, ClassT):
        return [m for c in t.chain() for m in c.methods]
    return t.methods


class Hist:
    """The history: statements are executed in the model as they are generated."""

    def __init__(self, s, w):
        self.s, self.w = s, w
        self.mc = Machine(60000)
        self.fr = Frame(self.mc)
        self.vars = []
        self.main = []
        self.sink = self.main
        self.deep = 0
        self.undo = False

    def emit(self, st):
        self.sink.append(st)
        st.run(self.fr)

    def ev(self, e):
        """Value of a pure expression."""
        return e.ev(self.fr)

    def path(self, want=None, steps=4, lv=False, props=True, start=None, pure=True):
        """A random walk from a variable; want(t): accepted types."""
        s = self.s
        for _ in range(6):
            vs = self.vars if start is None else start
            if not vs:
                return None
            e = s.choice(vs)
            best = None
            n = 0
            for _ in range(steps + 1):
                if want is None or want(e.t):
                    best = e
                    if s.p(35):
                        break
                if n == steps:
                    break
                t = e.t
                v = self.ev(e)
                if v is None:
                    break
                nxt = []
                if isinstance(t, ArrT):
                    if v.v:
                        nxt.append(Idx(e, [Lit("int", s.draw(len(v.v)))]))
                elif isinstance(t, (StructT, ClassT)):
                    fs = [Fld(e, ft, fn) for ft, fn in t.all_fields()]
                    rich = [f for f in fs if not isinstance(f.t, str)]
                    nxt += fs + rich
                    if props:
                        nxt += [PropE(e, p) for p in all_props(t) if p.auto and not isinstance(p.t, StructT)]
                if not nxt:
                    break
                e = s.choice(nxt)
                n += 1
            if best is not None:
                return best
        return None

    def gen(self, n=8, effects=True, d=2):
        """An expression generator over random primitive places."""
        g = Gen(self.s, {}, [], effects=effects, allow_float=False)
        for _ in range(n):
            p = self.path(lambda t: isinstance(t, str))
            if p is not None:
                g.vars.setdefault(p.t, []).append(p)
        return g

    def new(self, t, d=2):
        s = self.s
        if isinstance(t, ArrT):
            return NewArr(t, [Lit("int", s.i(1, 4))])
        cs = list(t.ctors)
        if isinstance(t, StructT) and (not cs or s.p(25)):
            return New(t)
        if not cs:
            return New(t)
        c = s.choice(cs)
        args = []
        for p in c.params:
            a = self.value(p.t, d - 1, calls=False)
            args.append(Arg(a))
        return New(t, c, args)

    def value(self, t, d=2, calls=True):
        """An expression of type t (or a subtype)."""
        s = self.s
        if isinstance(t, str):
            return self.gen(6, effects=False).e(t, min(d, 2))
        if d > 0 and s.p(25):
            return self.new(t, d - 1)
        if isinstance(t, ClassT) and s.p(10):
            return Null(t)
        if calls and d > 0 and s.p(20):
            c = self.call(lambda m: m.ret is t, d - 1)
            if c is not None:
                return c
        p = self.path(lambda x: subtype(x, t))
        if p is None:
            return self.new(t, d - 1) if d > 0 else (New(t) if isinstance(t, StructT) else Null(t))
        if isinstance(p.t, ClassT) and p.t is t and s.p(12):
            q = self.path(lambda x: x is t)
            if q is not None:
                return Paren(Coal(p, q))
        if p.t is t and not isinstance(t, ArrT) and s.p(8):
            q = self.path(lambda x: x is t)
            b = self.gen(3, effects=False).e("bool", 1)
            if q is not None:
                return Paren(Cond(b, p, q))
        return p

    def call(self, want=None, d=1):
        """A call on a place (or a chain of calls)."""
        s = self.s
        p = self.path(lambda t: isinstance(t, (StructT, ClassT)))
        if p is None or self.ev(p) is None:
            return None
        ms = [m for m in all_methods(p.t) if want is None or want(m)]
        if not ms:
            # through a method that returns an object or a struct
            return None
        m = s.choice(ms)
        c = MCall(m, [Arg(self.value(q.t, d, calls=False)) for q in m.params], p)
        return c

    # ------------------------------------------------------------ operations
    def op(self):
        s = self.s
        k = s.weighted([(8, "assign"), (5, "rich"), (4, "op"), (6, "print"), (6, "call"), (4, "decl"), (2, "chain"),
                        (3, "prop"), (2, "same"), (2, "pass"), (2, "expr"), (1, "loop"), (2, "temp")])
        getattr(self, "op_" + k)()

    def count(self, e):
        n = 0
        while isinstance(e, (Fld, PropE, Idx)):
            e = e.obj if not isinstance(e, Idx) else e.arr
            n += 1
        if n >= 2:
            self.deep += 1

    def op_assign(self):
        p = self.path(lambda t: isinstance(t, str))
        if p is None:
            return self.op_decl()
        self.count(p)
        self.emit(Ex(Assign(p, "", self.gen(effects=False).e(p.t, 2))))

    def op_rich(self):
        s = self.s
        p = self.path(lambda t: not isinstance(t, str))
        if p is None:
            return self.op_decl()
        simple = isinstance(p, Var) or isinstance(p, Fld) and isinstance(p.obj, Var)
        e = self.value(p.t, 2, calls=simple)
        self.count(p)
        self.deep += isinstance(p.t, StructT)
        self.emit(Ex(Assign(p, "", e)))

    def op_chain(self):
        """a = b = value"""
        s = self.s
        t = s.choice([x for x in self.w.structs + self.w.classes + ["int", "long", "string", "byte"]])
        ps = []
        for _ in range(s.i(2, 3)):
            p = self.path(lambda x: x is t or x == t)
            if p is None:
                return self.op_print()
            ps.append(p)
        # an assignment to one must not change what the others denote
        if len({str(p.tx()) for p in ps}) != len(ps) or not all(isinstance(p, Var) or isinstance(p, Fld) and
                                                                isinstance(p.obj, Var) for p in ps[:-1]):
            ps = [p for p in ps if isinstance(p, Var)] or ps[-1:]
            if len(ps) < 2:
                return self.op_rich()

        def root(p):
            while not isinstance(p, Var):
                p = p.arr if isinstance(p, Idx) else getattr(p, "obj", None)
                if p is None:
                    return None
            return p.tx()
        roots = [root(p) for p in ps if not isinstance(p, Var)]
        if any(isinstance(p, Var) and p.tx() in roots for p in ps):
            return self.op_rich()
        e = self.value(t, 1, calls=False)
        for p in reversed(ps):
            e = Assign(p, "", e)
        self.deep += isinstance(t, StructT)
        self.emit(Ex(e))

    def op_op(self):
        s = self.s
        p = self.path(lambda t: isinstance(t, str) and is_num(t))
        if p is None:
            return self.op_decl()
        self.count(p)
        if s.p(45) or not is_int(p.t):
            e = IncDec(p, s.choice(["++", "--"]), s.p(50))
        else:
            e = Assign(p, s.choice(["+", "-", "*", "^", "|", "&"]), self.gen(4, effects=False).e(s.choice(["int", "int", p.t]), 1))
        self.emit(Ex(e) if s.p(50) else Print(e))

    def op_print(self):
        p = self.path(lambda t: isinstance(t, str))
        if p is None:
            return self.op_decl()
        self.count(p)
        self.emit(Print(p))

    def op_expr(self):
        self.emit(Print(self.gen(10, effects=True).e(self.s.choice(["int", "long", "bool", "uint"]), 3)))

    def op_call(self):
        s = self.s
        c = self.call(d=2)
        if c is None:
            return self.op_decl()
        self.count(c.target)
        m = c.method
        # a chain of calls on the result
        if isinstance(m.ret, (StructT, ClassT)) and s.p(50):
            nxt = all_methods(m.ret)
            if m.ret is m.cls and isinstance(m.body[-1], Return) and isinstance(m.body[-1].e, This) and nxt:
                m2 = s.choice(nxt)
                c = MCall(m2, [Arg(self.value(q.t, 0, calls=False)) for q in m2.params], c)
                m = m2
        if m.ret == "void":
            self.emit(Ex(c))
        elif isinstance(m.ret, str):
            self.emit(Print(c) if s.p(80) else Ex(c))
        elif isinstance(m.ret, StructT) and s.p(40):
            fs = [(ft, fn) for ft, fn in m.ret.fields if isinstance(ft, str)]
            if fs:
                ft, fn = s.choice(fs)
                self.emit(Print(Fld(c, ft, fn)))
            else:
                self.emit(Ex(c))
        elif s.p(30):
            self.emit(Ex(c))
        else:
            self.declare(m.ret, c)

    def op_temp(self):
        """A copy is changed; the original is printed."""
        p = self.path(lambda t: isinstance(t, StructT))
        if p is None:
            return self.op_decl()
        self.deep += 1
        v = self.declare(p.t, p)
        q = self.path(lambda t: isinstance(t, str), start=[v])
        if q is not None:
            self.emit(Ex(Assign(q, "", self.gen(2, effects=False).e(q.t, 1))))
            self.emit(Print(q))
            # the same member of the original
            r = rebase(q, v, p)
            if r is not None and self.alive(r):
                self.emit(Print(r))

    def alive(self, e):
        try:
            self.ev(e)
            return True
        except Undef:
            return False

    def declare(self, t, e, name=None):
        n = name or self.w.nm("v")
        self.emit(Decl(t, n, e))
        v = Var(t, n)
        if self.sink is self.main:
            self.vars.append(v)
        return v

    def op_decl(self):
        s = self.s
        w = self.w
        t = s.weighted([(3, "s"), (5, "c"), (2, "a"), (1, "p")])
        t = s.choice(w.structs if t == "s" else w.classes if t == "c" else w.arrs if t == "a" else PRIM)
        if not isinstance(t, str) and s.p(50):
            # a variable of a base class
            e = self.value(t, 2)
        else:
            e = self.new(t) if not isinstance(t, str) else self.value(t)
        self.declare(t, e)

    def op_prop(self):
        s = self.s
        p = self.path(lambda t: isinstance(t, (StructT, ClassT)) and all_props(t))
        if p is None or self.ev(p) is None:
            return self.op_decl()
        pr = s.choice(all_props(p.t))
        pe = PropE(p, pr)
        self.count(pe)
        t = pr.t
        k = s.draw(4)
        if k == 0 or k == 1:
            v = self.value(t, 1, calls=False)
            a = Assign(pe, "", v)
            if isinstance(t, str) and s.p(30):
                self.emit(Print(a))
            else:
                self.emit(Ex(a))
        elif isinstance(t, str):
            if k == 2 and is_num(t):
                if s.p(50) or not is_int(t):
                    e = IncDec(pe, s.choice(["++", "--"]), s.p(50))
                else:
                    e = Assign(pe, s.choice(["+", "-", "^"]), self.gen(2, effects=False).e("int", 1))
                self.emit(Ex(e) if s.p(50) else Print(e))
            else:
                self.emit(Print(pe))
        elif isinstance(t, StructT):
            fs = [(ft, fn) for ft, fn in t.fields if isinstance(ft, str)]
            if s.p(50) and fs:
                ft, fn = s.choice(fs)
                self.emit(Print(Fld(pe, ft, fn)))
            else:
                self.declare(t, pe)
        else:
            self.declare(t, pe)

    def op_same(self):
        s = self.s
        p = self.path(lambda t: isinstance(t, ClassT))
        if p is None:
            return self.op_decl()
        if s.p(50):
            self.emit(Print(SameE(s.choice(["==", "!="]), p, Null(p.t))))
        else:
            q = self.path(lambda t: t is p.t)
            if q is not None:
                self.emit(Print(SameE(s.choice(["==", "!="]), p, q)))

    def op_pass(self):
        """A static method that changes what it gets."""
        s, w = self.s, self.w
        t = s.choice(w.structs + w.classes)
        key = (t, s.choice(["", "ref"]))
        m = next((m for m in w.statics if m.key == key), None)
        if m is None:
            x = Param(t, "x", key[1])
            y = Param("int", "y")
            fs = [(ft, fn) for ft, fn in t.all_fields() if isinstance(ft, str)]
            b = []
            for ft, fn in fs[:3]:
                g = Gen(s, {"int": [Var("int", "y")]}, [], effects=False)
                b.append(Ex(Assign(Fld(Var(t, "x"), ft, fn), "", g.e(ft, 1))))
                if s.p(50):
                    b.append(Print(Fld(Var(t, "x"), ft, fn)))
            if key[1] and isinstance(t, ClassT) and not t.ctors and s.p(50):
                b.append(Ex(Assign(Var(t, "x"), "", New(t))))
            if key[1] and isinstance(t, StructT) and s.p(30):
                b.append(Ex(Assign(Var(t, "x"), "", New(t))))
            m = Method(w.nm("Z"), "void", [x, y], b)
            m.key = key
            w.statics.append(m)
        if key[1]:
            vs = [v for v in self.vars if v.t is t and self.ev(v) is not None]
            if not vs:
                return self.op_decl()
            a = Arg(s.choice(vs), "ref")
        else:
            e = self.value(t, 1, calls=False)
            if not isinstance(e, (New,)) and self.ev(e) is None:
                return self.op_print()
            a = Arg(e)
        self.emit(Ex(Call(m, [a, Arg(Lit("int", s.i(0, 300)))])))

    def op_loop(self):
        """A few operations in a loop over fresh copies."""
        s = self.s
        if self.sink is not self.main:
            return self.op_print()
        p = self.path(lambda t: isinstance(t, str) and is_num(t))
        if p is None:
            return self.op_decl()
        n = self.w.nm("i")
        i = Var("int", n)
        b = []
        if is_int(p.t):
            b.append(Ex(Assign(p, "+", i)))
        st = self.path(lambda t: isinstance(t, StructT))
        if st is not None:
            l = self.w.nm("l")
            b.append(Decl(st.t, l, st))
            fs = [(ft, fn) for ft, fn in st.t.fields if isinstance(ft, str) and is_int(ft)]
            if fs:
                ft, fn = s.choice(fs)
                b.append(Ex(Assign(Fld(Var(st.t, l), ft, fn), "+", i)))
                b.append(Print(Fld(Var(st.t, l), ft, fn)))
                if s.p(50) and not prefix_of(st, p):
                    b.append(Ex(Assign(st, "", Var(st.t, l))))
        b.append(Print(p))
        self.emit(For(Decl("int", n, Lit("int", 0)), Bin("<", i, Lit("int", s.i(1, 3))), IncDec(i, "++", False), Blk(b)))

    def dump(self, e, d, seen):
        """Prints everything reachable."""
        t = e.t
        if isinstance(t, str):
            if t == "string" and self.ev(e) is None:
                return
            self.emit(Print(e))
        elif isinstance(t, StructT):
            for ft, fn in t.fields:
                self.dump(Fld(e, ft, fn), d, seen)
        elif isinstance(t, ArrT):
            v = self.ev(e)
            if v is None or v in seen:
                return
            seen.append(v)
            self.emit(Print(LenE(e)))
            for k in range(len(v.v)):
                self.dump(Idx(e, [Lit("int", k)]), d - 1, seen)
        elif isinstance(t, ClassT):
            v = self.ev(e)
            self.emit(Print(SameE("==", e, Null(t))))
            if v is None or v in seen or d <= 0:
                return
            seen.append(v)
            for ft, fn in t.all_fields():
                self.dump(Fld(e, ft, fn), d - 1, seen)
            for p in all_props(t):
                if p.auto and isinstance(p.t, str) and not (p.t == "string" and v.f["$" + p.name] is None):
                    self.emit(Print(PropE(e, p)))


def prefix_of(a, b):
    return b.tx().startswith(a.tx())


def rebase(q, v, p):
    """q is a path from v: the same path from p."""
    if q is v:
        return p
    if isinstance(q, Fld):
        o = rebase(q.obj, v, p)
        return Fld(o, q.t, q.name) if o is not None else None
    if isinstance(q, Idx):
        o = rebase(q.arr, v, p)
        return Idx(o, q.idx) if o is not None else None
    return None


def gen(s):
    w = W(s)
    h = Hist(s, w)
    try:
        for t in s.shuffle(w.structs + w.classes):
            h.declare(t, h.new(t))
        n = 0
        for _ in s.many(1, 60, 97):
            with s.span():
                h.op()
            n += 1
        seen = []
        for v in h.vars:
            h.dump(v, 3, seen)
            if len(h.mc.out) > 500:
                break
        for t in w.classes:
            vs = [v for v in h.vars if v.t is t]
            for a, b in list(zip(vs, vs[1:]))[:4]:
                h.emit(Print(SameE("==", a, b)))
    except (Undef, RecursionError, KeyError):
        raise Reject()
    mm = Method("Run", "void", [], h.main)
    types = w.structs + w.classes
    if s.p(40):
        types = s.shuffle(types)
    text, out, mc = program([mm] + w.statics, [Ex(Call(mm, []))], "\n\n".join(t.tx() for t in types), limit=60000)
    return run_case(text, out, units=n, nontrivial=h.deep >= 10)
