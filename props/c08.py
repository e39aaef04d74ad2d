"""C08 virtual, interface and hidden method dispatch."""
from vlib.stmtgen import *
from vlib.objs import *

RULE = ("each case is a random hierarchy: 1..4 interfaces (with inheritance), 2..7 classes up to 5 deep, sometimes a struct; "
        "every class declares a random subset of methods, overloads and properties as plain, virtual, abstract, override, sealed "
        "override, new or new virtual, implements interfaces implicitly, explicitly or by inheritance, and has constructors; "
        "bodies print who they are, use fields and call other members on this. Objects of every concrete class are "
        "called through every base class and interface they have. Non-trivial: at least 8 calls, of which at least 3 "
        "reach a method declared in another class than the static type.")
QUICK, THOROUGH = 1500, 15000
NAMES_ = ["Ma", "Mb", "Mc", "Pd", "Pe"]


class VProp(VMethod):
    """A get-only property: a method called without parentheses."""

    def tx(self):
        pre = "%s %s %s" % (self.mods, self.ret, self.name) if self.explicit is None else \
            "%s %s.%s" % (self.ret, self.explicit, self.name)
        if self.kind == "abstract":
            return pre + " { get; }"
        return pre + "\n{\n" + ind("get\n" + Blk(self.body).tx()) + "\n}"


class IProp(IMethod):
    pass


def call(target, m, args):
    if isinstance(m, (VProp, IProp)):
        return PropCall(m, [], target)
    return MCall(m, args, target)


class PropCall(MCall):
    def tx(self):
        if isinstance(self.target, This) and self.target.implicit:
            return self.method.name
        return "%s.%s" % (sub(self.target, 15), self.method.name)


class H:
    own_fields = False          # whether bodies touch only the fields of their own class

    def __init__(self, s):
        self.s = s
        self.ids = 0
        self.classes, self.ifaces, self.structs = [], [], []
        # names without overloads, which may be implemented explicitly
        self.single = {n: s.choice([(), ("int",), ("bool",)]) for n in s.shuffle(NAMES_[:3])[:s.i(0, 3)]}

    def id(self):
        self.ids += 1
        return self.ids

    def sigs(self, name):
        if name in self.single:
            return [self.single[name]]
        return [()] if name[0] == "P" else [(), ("int",), ("bool",)]

    def make_ifaces(self):
        s = self.s
        for k in s.many(0, 4):
            i = IfaceT("I%d" % k, s.shuffle(self.ifaces)[:s.i(0, 2)] if self.ifaces and s.p(50) else [])
            inherited = {(m.name, tuple(p.t for p in m.params)) for b in i.all_bases() for m in b.methods}
            for n in s.shuffle(NAMES_)[:s.i(1, 3)]:
                sg = s.choice(self.sigs(n))
                if (n, sg) in inherited:
                    continue
                ps = [Param(t, "q") for t in sg]
                i.methods.append((IProp if n[0] == "P" else IMethod)(i, n, "int", ps))
            self.ifaces.append(i)

    def visible(self, c, name, sig):
        """The declaration a name denotes on static type c."""
        for k in c.chain():
            for m in k.methods:
                if m.explicit is None and m.name == name and tuple(p.t for p in m.params) == sig:
                    return m
        return None

    def all_visible(self, c):
        out = []
        for n in NAMES_:
            for sg in self.sigs(n):
                m = self.visible(c, n, sg)
                if m:
                    out.append(m)
        return out

    def unimplemented(self, c):
        """Abstract slots without an override in c."""
        out = []
        chain = list(reversed(list(c.chain())))
        for k in chain:
            for m in k.methods:
                if m.kind == "abstract":
                    out.append(m)
        r = []
        for a in out:
            done = any(m.slot is a.slot and m.kind != "abstract" for k in chain for m in k.methods)
            if not done:
                r.append(a)
        return r

    def body(self, c, m):
        s = self.s
        i = self.id()
        ss = [Print(Lit("string", "%s.%s#%d" % (c.name, m.name, i)))]
        this = This(c, implicit=s.p(60))
        fs = c.all_fields() if isinstance(c, ClassT) and not self.own_fields else c.fields
        if m.params:
            p = m.params[0]
            if s.p(70):
                ss.append(Print(Var(p.t, p.name)))
        for t, n in fs:
            if s.p(25):
                ss.append(Ex(Assign(Fld(This(c, implicit=s.p(70)), t, n), "", Bin("+", Fld(This(c, True), t, n), Lit("int", i)))))
            elif s.p(25):
                ss.append(Print(Fld(This(c, implicit=s.p(70)), t, n)))
        m.later = (this, ss)
        return ss

    def finish_bodies(self, c):
        """Adds calls on this of members that come later in the name order (no recursion)."""
        s = self.s
        for m in c.methods:
            if m.kind == "abstract":
                continue
            this, ss = m.later
            vis = self.all_visible(c) if isinstance(c, ClassT) else []
            cand = [x for x in vis if NAMES_.index(x.name) > NAMES_.index(m.name)]
            if cand and s.p(35):
                x = s.choice(cand)
                e = call(this, x, [Arg(self.argv(p.t)) for p in x.params])
                ss.append(Print(e))
            ss.append(Return(Lit("int", self.id()), "int"))

    def argv(self, t):
        return Lit("bool", bool(self.s.draw(2))) if t == "bool" else Lit("int", self.s.i(0, 99))

    def make_class(self, k):
        s = self.s
        base = None
        if self.classes and s.p(75):
            base = s.choice(self.classes[-3:])
        c = ClassT("C%d" % k, base, [("int", "f%d%s" % (k, x)) for x in "ab"[:s.i(0, 2)]])
        c.abstract = s.p(25)
        c.ifaces = s.shuffle(self.ifaces)[:s.i(0, 2)] if self.ifaces and s.p(60) else []
        self.classes.append(c)
        have = set()

        def add(name, sig, kind, over=None, explicit=None):
            ps = [Param(t, "q") for t in sig]
            m = (VProp if name[0] == "P" else VMethod)(c, name, "int", ps, None, kind, over)
            if explicit is not None:
                m.explicit = explicit
                m.mods = ""
            elif kind == "override" and s.p(10):
                m.mods = "public sealed override"
                m.sealed = True
            c.methods.append(m)
            if kind != "abstract":
                m.body = self.body(c, m)
            if explicit is None:
                have.add((name, sig))
            return m

        for n in NAMES_:
            for sg in self.sigs(n):
                if not s.p(38 if sg == () else 22):
                    continue
                inh = self.visible(base, n, sg) if base else None
                if inh is None:
                    kind = s.weighted([(3, "virtual"), (2, "plain")] + ([(2, "abstract")] if c.abstract else []))
                    add(n, sg, kind)
                else:
                    opts = []
                    if inh.is_virtual() and not getattr(inh, "sealed", False):
                        opts.append((7, "override"))
                    # hiding an abstract member that is not implemented yet is an error
                    if not any(a.name == n and tuple(p.t for p in a.params) == sg for a in self.unimplemented(base)):
                        opts += [(2, "new"), (2, "newvirtual")]
                    if opts:
                        kind = s.weighted(opts)
                        add(n, sg, kind, inh if kind == "override" else None)
        if not c.abstract:
            for a in self.unimplemented(c):
                if (a.name, tuple(p.t for p in a.params)) not in have:
                    add(a.name, tuple(p.t for p in a.params), "override", a)
        # interfaces
        for i in c.ifaces:
            for j in [i] + i.all_bases():
                for im in j.methods:
                    sg = tuple(p.t for p in im.params)
                    v = self.visible(c, im.name, sg)
                    ex = any(m.explicit is j and same_sig(m, im) for m in c.methods)
                    if ex:
                        continue
                    if im.name in self.single and s.p(35):
                        add(im.name, sg, "plain", explicit=j)
                    elif v is None:
                        add(im.name, sg, s.weighted([(2, "plain"), (3, "virtual")]))
        if s.p(50):
            i = self.id()
            body = [Print(Lit("string", "ctor %s" % c.name))]
            for t, n in c.fields:
                body.append(Ex(Assign(Fld(This(c, True), t, n), "", Lit("int", i))))
            ct = Ctor(c, [], body)
            c.ctors.append(ct)
        self.finish_bodies(c)
        if c.ctors and s.p(30):
            vis = [x for x in self.all_visible(c) if x.kind != "abstract" or x.is_virtual()]
            if vis:
                x = s.choice(vis)
                c.ctors[0].body.append(Print(call(This(c, True), x, [Arg(self.argv(p.t)) for p in x.params])))

    def make_struct(self):
        s = self.s
        c = StructT("S0", [("int", "sf")])
        c.ifaces = s.shuffle(self.ifaces)[:s.i(1, 2)]
        seen = set()
        for i in c.ifaces:
            for j in [i] + i.all_bases():
                for im in j.methods:
                    sg = tuple(p.t for p in im.params)
                    if (im.name, sg) in seen:
                        continue
                    seen.add((im.name, sg))
                    m = (VProp if im.name[0] == "P" else VMethod)(c, im.name, "int", [Param(t, "q") for t in sg], None, "plain")
                    m.body = self.body(c, m)
                    c.methods.append(m)
        self.finish_bodies(c)
        self.structs.append(c)


def gen(s):
    h, helpers, calls, ncall = build(s)
    types = s.shuffle(h.ifaces + h.classes + h.structs) if s.p(50) else h.ifaces + h.classes + h.structs
    text, out, mc = program(list(helpers.values()), calls, "\n\n".join(t.tx() for t in types))
    return run_case(text, out, units=ncall[0], nontrivial=ncall[0] >= 8 and ncall[1] >= 3)


def build(s, own_fields=False):
    h = H(s)
    h.own_fields = own_fields
    h.make_ifaces()
    for k in s.many(2, 7, 88):
        h.make_class(k)
    if h.ifaces and s.p(25):
        h.make_struct()
    concrete = [c for c in h.classes if not c.abstract] + h.structs
    if not concrete:
        raise Reject()
    helpers, calls = {}, []
    ncall = [0, 0]

    def types_of_obj(c):
        out = list(c.chain()) if isinstance(c, ClassT) else [c]
        for k in list(out):
            for i in k.ifaces:
                for j in [i] + i.all_bases():
                    if j not in out:
                        out.append(j)
        return out

    def members(t):
        if isinstance(t, IfaceT):
            return t.methods
        if isinstance(t, StructT):
            return t.methods
        return h.all_visible(t)

    def emit_calls(v, t, c):
        """Statements calling members of v (static type t, runtime class c)."""
        ms = members(t)
        out = []
        if not ms:
            return out
        for m in s.shuffle(ms)[:s.i(1, 4)]:
            out.append(Print(call(v, m, [Arg(h.argv(p.t)) for p in m.params])))
            ncall[0] += 1
            im = m.resolve(Obj(c, {}) if isinstance(c, ClassT) else StructVal(c, {}))
            if im.cls is not t:
                ncall[1] += 1
        return out

    def helper(t):
        if t not in helpers:
            v = Var(t, "x")
            ms = members(t)
            ss = [Print(call(v, m, [Arg(h.argv(p.t)) for p in m.params])) for m in s.shuffle(ms)[:4]]
            if not ss:
                return None
            helpers[t] = Method("H_%s" % t.name, "void", [Param(t, "x")], ss)
        return helpers[t]

    def boxed(t, e, c):
        return Conv(t, e) if isinstance(c, StructT) else e

    n = 0
    for _ in s.many(1, 8, 90):
        c = s.choice(concrete)
        on = "o%d" % n
        n += 1
        if isinstance(c, StructT):
            calls.append(Decl(c, on, New(c)))
        else:
            calls.append(Decl(c, on, New(c)))
        o = Var(c, on)
        ts = types_of_obj(c)
        for _ in s.many(1, 4, 80):
            t = s.choice(ts)
            k = s.weighted([(3, "var"), (2, "cast"), (2, "helper"), (1, "array"), (1, "direct")])
            if isinstance(c, StructT) and k in ("cast", "array"):
                k = "var"
            if isinstance(c, StructT) and isinstance(t, StructT):
                k = "direct"
            if k == "direct":
                calls += emit_calls(o, c, c)
            elif k == "var":
                vn = "v%d" % n
                n += 1
                if isinstance(c, StructT):
                    calls.append(Decl(t, vn, Raw(t, on, (lambda on: lambda fr: fr.slots[on][0].copy())(on))))
                else:
                    calls.append(Decl(t, vn, o))
                calls += emit_calls(Var(t, vn), t, c)
            elif k == "cast":
                calls += emit_calls(Paren(RefCast(t, o)), t, c)
            elif k == "helper" and isinstance(c, ClassT):
                m = helper(t)
                if m:
                    ncall[0] += 1
                    calls.append(Ex(Call(m, [Arg(o)])))
            elif isinstance(c, ClassT):
                an = "w%d" % n
                n += 1
                at = arr_t(t)
                calls.append(Decl(at, an, NewArr(at, [Lit("int", 2)])))
                el = Idx(Var(at, an), [Lit("int", s.draw(2))])
                calls.append(Ex(Assign(el, "", o)))
                calls += emit_calls(el, t, c)
    return h, helpers, calls, ncall
