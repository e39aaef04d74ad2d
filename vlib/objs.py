"""Classes, structs, interfaces, arrays and delegates of the reference model."""
from .lang import *


class T:
    """A named type; prints as its name."""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name


OBJECT = T("object")


class ArrT(T):
    def __init__(self, elem, rank=1):
        T.__init__(self, "%s[%s]" % (elem, "," * (rank - 1)))
        self.elem, self.rank = elem, rank


_arr = {}


def arr_t(elem, rank=1):
    k = (id(elem) if not isinstance(elem, str) else elem, rank)
    if k not in _arr or _arr[k].elem is not elem and _arr[k].elem != elem:
        _arr[k] = ArrT(elem, rank)
    return _arr[k]


class StructT(T):
    kind = "struct"

    def __init__(self, name, fields=()):
        T.__init__(self, name)
        self.fields = list(fields)      # (type, name)
        self.methods = []
        self.props = []
        self.ctors = []
        self.ifaces = []
        self.text_extra = ""

    def new(self):
        f = {n: default(t) for t, n in self.fields}
        f.update({"$" + p.name: default(p.t) for p in self.props if p.auto})
        return StructVal(self, f)

    def all_fields(self):
        return self.fields

    def is_a(self, o):
        return o is self or o is OBJECT or any(o is i or o in i.all_bases() for i in self.ifaces)

    def tx(self):
        return class_text(self)


class ClassT(T):
    kind = "class"

    def __init__(self, name, base=None, fields=()):
        T.__init__(self, name)
        self.base = base
        self.fields = list(fields)
        self.methods = []
        self.props = []
        self.ctors = []
        self.ifaces = []
        self.abstract = False
        self.vt = {}                    # slot -> Method
        self.imap = {}                  # (iface, name) -> Method or slot
        self.text_extra = ""
        self.mods = ""

    def chain(self):
        c = self
        while c is not None:
            yield c
            c = c.base

    def all_fields(self):
        r = []
        for c in reversed(list(self.chain())):
            r += c.fields
        return r

    def new(self):
        f = {n: default(t) for t, n in self.all_fields()}
        f.update({"$" + p.name: default(p.t) for c in self.chain() for p in c.props if p.auto})
        return Obj(self, f)

    def is_a(self, o):
        if o is OBJECT:
            return True
        for c in self.chain():
            if c is o:
                return True
            for i in c.ifaces:
                if i is o or o in i.all_bases():
                    return True
        return False

    def tx(self):
        return class_text(self)


def class_text(c):
    bases = [str(x) for x in ([c.base] if getattr(c, "base", None) else []) + c.ifaces]
    mods = getattr(c, "mods", "") or ("abstract" if getattr(c, "abstract", False) else "")
    out = "%s%s %s%s\n{\n" % (mods + " " if mods else "", c.kind, c.name,
                              " : " + ", ".join(bases) if bases else "")
    inits = dict(getattr(c, "inits", []))
    parts = ["public %s %s%s;" % (t, n, " = " + inits[n].tx() if n in inits else "") for t, n in c.fields]
    parts += [p.tx() for p in c.props]
    parts += [k.tx() for k in c.ctors]
    parts += [m.tx() for m in c.methods]
    if c.text_extra:
        parts.append(c.text_extra)
    order = getattr(c, "order", None)
    if order:
        parts = [parts[k] for k in order if k < len(parts)] + parts[len(order):]
    return out + ind("\n\n".join(parts)) + "\n}"


class IfaceT(T):
    kind = "interface"

    def __init__(self, name, bases=()):
        T.__init__(self, name)
        self.bases = list(bases)
        self.methods = []

    def all_bases(self):
        r = []
        for b in self.bases:
            r.append(b)
            r += b.all_bases()
        return r

    def is_a(self, o):
        return o is self or o is OBJECT or o in self.all_bases()

    def tx(self):
        return "interface %s%s\n{\n%s\n}" % (
            self.name, " : " + ", ".join(str(b) for b in self.bases) if self.bases else "",
            ind("\n".join("%s %s { get; }" % (m.ret, m.name) if m.name[0] == "P" else
                          "%s %s(%s);" % (m.ret, m.name, ", ".join(p.tx() for p in m.params))
                          for m in self.methods)))


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Boxed:
    """A boxed value."""
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Arr:
    __slots__ = ("t", "dims", "v")

    def __init__(self, t, dims):
        self.t, self.dims = t, dims
        n = 1
        for d in dims:
            n *= d
        self.v = [default(t.elem) for _ in range(n)]


def default(t):
    if isinstance(t, str):
        if t in INTS or t == "char":
            return 0
        if t in ("float", "double"):
            return 0.0
        if t == "bool":
            return False
        return None
    if isinstance(t, StructT):
        return t.new()
    if isinstance(t, EnumT):
        return 0
    return None


class EnumT(T):
    kind = "enum"

    def __init__(self, name, items):
        T.__init__(self, name)
        self.items = items              # (name, value, text or None)

    def tx(self):
        return "enum %s\n{\n%s\n}" % (self.name, ind(",\n".join(
            n if x is None else "%s = %s" % (n, x) for n, v, x in self.items)))


def rt_type(v):
    if isinstance(v, (Obj,)):
        return v.cls
    if isinstance(v, (StructVal,)):
        return v.ty
    if isinstance(v, (Boxed, Arr)):
        return v.t
    return None


# ---------------------------------------------------------------- expressions

class This(E):
    def __init__(self, t, implicit=False):
        self.t, self.implicit = t, implicit

    def tx(self):
        return "this"

    def ev(self, fr):
        return fr.this

    def loc(self, fr):
        raise Undef("this")


class Fld(E):
    """obj.name"""

    def __init__(self, obj, t, name):
        self.obj, self.t, self.name = obj, t, name

    def tx(self):
        if isinstance(self.obj, This) and self.obj.implicit:
            return self.name
        return "%s.%s" % (sub(self.obj, 15), self.name)

    def ev(self, fr):
        fr.m.tick()
        o = self.obj.ev(fr)
        if o is None:
            raise Undef("null")
        return o.f[self.name]

    def loc(self, fr):
        o = self.obj.ev(fr)
        if o is None:
            raise Undef("null")
        f, n = o.f, self.name
        return (lambda: f[n]), (lambda v: f.__setitem__(n, v))


class Prop:
    """A property: getter and setter bodies are lists of statements (None: absent)."""

    def __init__(self, t, name, get, set_, mods="public"):
        self.t, self.name, self.mods = t, name, mods
        self.get = Method("get_" + name, t, [], get) if get is not None else None
        self.set = Method("set_" + name, "void", [Param(t, "value")], set_) if set_ is not None else None
        self.auto = False

    def tx(self):
        if self.auto:
            return "%s %s %s { get; set; }" % (self.mods, self.t, self.name)
        s = "%s %s %s\n{\n" % (self.mods, self.t, self.name)
        if self.get:
            s += ind("get " + Blk(self.get.body).tx()) + "\n"
        if self.set:
            s += ind("set " + Blk(self.set.body).tx()) + "\n"
        return s + "}"


class PropE(E):
    name = "{}"

    def __init__(self, obj, prop):
        self.obj, self.prop, self.t = obj, prop, prop.t

    def tx(self):
        if isinstance(self.obj, This) and self.obj.implicit:
            return self.prop.name
        return "%s.%s" % (sub(self.obj, 15), self.prop.name)

    def ev(self, fr):
        fr.m.tick()
        o = self.obj.ev(fr)
        if o is None:
            raise Undef("null")
        p = find_prop(o, self.prop)
        if p.auto:
            return copy_val(o.f["$" + p.name])
        return p.get.invoke(fr.m, o, [])

    def loc(self, fr):
        o = self.obj.ev(fr)
        if o is None:
            raise Undef("null")
        p = find_prop(o, self.prop)
        if p.auto:
            return (lambda: o.f["$" + p.name]), (lambda v: o.f.__setitem__("$" + p.name, v))
        return (lambda: p.get.invoke(fr.m, o, [])), \
            (lambda v: p.set.invoke(fr.m, o, [(p.set.params[0], [copy_val(v)])]))


def find_prop(o, p):
    return p


class Idx(E):
    """arr[i] or arr[i, j]"""
    name = "[]"

    def __init__(self, arr, idx, exc=None):
        self.arr, self.idx = arr, idx
        self.t = arr.t.elem
        self.exc = exc

    def tx(self):
        return "%s[%s]" % (sub(self.arr, 15), ", ".join(i.tx() for i in self.idx))

    def pos(self, fr):
        a = self.arr.ev(fr)
        ix = [i.ev(fr) for i in self.idx]
        if a is None:
            raise Undef("null array")
        p = 0
        for d, i in zip(a.dims, ix):
            if not 0 <= i < d:
                fr.m.ev("index out of range")
                if OUT_OF_RANGE is None:
                    raise Undef("range")
                raise ThrowX(ExcObj(OUT_OF_RANGE, []))
            p = p * d + i
        return a, p

    def ev(self, fr):
        fr.m.tick()
        a, p = self.pos(fr)
        return a.v[p]

    def loc(self, fr):
        a, p = self.pos(fr)
        return (lambda: a.v[p]), (lambda v: a.v.__setitem__(p, v))


OUT_OF_RANGE = ExcClass("OutOfRangeException", ExcClass("Exception"))
INVALID_CAST = ExcClass("InvalidCastException", OUT_OF_RANGE.base)
EXCEPTION = OUT_OF_RANGE.base


class NewArr(E):
    def __init__(self, t, dims=None, init=None):
        self.t, self.dims, self.init = t, dims, init

    def tx(self):
        return "new %s[%s]" % (self.t.elem, ", ".join(d.tx() for d in self.dims))

    def ev(self, fr):
        fr.m.tick()
        ds = [d.ev(fr) for d in self.dims]
        if any(d < 0 or d > 4000 for d in ds):
            raise Undef("array length")
        return Arr(self.t, ds)


class ArrInit(E):
    """{ a, b, c } in a declaration, nested for more than one dimension; shape given."""

    def __init__(self, t, elems, shape):
        self.t, self.elems, self.shape = t, elems, shape

    def tx(self):
        def rec(es, sh):
            if len(sh) == 1:
                return "{ %s }" % ", ".join(Arg(e).tx() for e in es)
            n = len(es) // sh[0] if sh[0] else 0
            return "{ %s }" % ", ".join(rec(es[k * n:(k + 1) * n], sh[1:]) for k in range(sh[0]))
        return rec(self.elems, self.shape)

    def ev(self, fr):
        fr.m.tick()
        a = Arr(self.t, list(self.shape))
        for k, e in enumerate(self.elems):
            v = e.ev(fr)
            if is_num(self.t.elem) and is_num(e.t):
                v = conv(self.t.elem, v)
            a.v[k] = copy_val(v)
        return a


class LenE(E):
    t = "int"

    def __init__(self, arr, what="Length", arg=None):
        self.arr, self.what, self.arg = arr, what, arg

    def tx(self):
        if self.what == "GetLength":
            return "%s.GetLength(%s)" % (sub(self.arr, 15), self.arg.tx())
        return "%s.%s" % (sub(self.arr, 15), self.what)

    def ev(self, fr):
        fr.m.tick()
        a = self.arr.ev(fr)
        if a is None:
            raise Undef("null")
        if self.what == "Rank":
            return len(a.dims)
        if self.what == "GetLength":
            return a.dims[self.arg.ev(fr)]
        return len(a.v)


class Ctor(Method):
    def __init__(self, cls, params, body):
        Method.__init__(self, cls.name, "void", params, body, "public")
        self.cls = cls
        self.base_ctor, self.base_args = None, []

    def head(self):
        s = "public %s(%s)" % (self.cls.name, ", ".join(p.tx() for p in self.params))
        if self.base_ctor is not None:
            s += " : base(%s)" % ", ".join(Arg(a).tx() for a in self.base_args)
        return s


class New(E):
    def __init__(self, cls, ctor=None, args=()):
        self.t = self.cls = cls
        self.ctor, self.args = ctor, list(args)

    def tx(self):
        return "new %s(%s)" % (self.cls, ", ".join(a.tx() for a in self.args))

    def ev(self, fr):
        fr.m.tick()
        vals = []
        if self.ctor:
            for p, a in zip(self.ctor.params, self.args):
                v = a.e.ev(fr)
                if is_num(p.t) and is_num(a.e.t):
                    v = conv(p.t, v)
                vals.append((p, [copy_val(v)]))
        o = self.cls.new()
        construct(fr.m, self.cls, o, self.ctor, vals)
        return o


def construct(m, cls, o, ctor, vals):
    """Field initialisers of the class, then the base constructor, then the body."""
    for f, e in getattr(cls, "inits", []):
        v = e.ev(Frame(m, o))
        t = [t for t, n in cls.fields if n == f][0]
        o.f[f] = conv(t, v) if is_num(t) and is_num(e.t) else v
    base = getattr(cls, "base", None)
    bc, bvals = None, []
    if ctor is None and cls.ctors and not isinstance(cls, StructT):
        ctor = [c for c in cls.ctors if not c.params][0]
    if isinstance(base, ClassT):
        if ctor is not None and ctor.base_ctor is not None:
            bc = ctor.base_ctor
            fr = Frame(m, o)
            for p, slot in vals:
                fr.slots[p.name] = slot
            for p, a in zip(bc.params, ctor.base_args):
                v = a.ev(fr)
                if is_num(p.t) and is_num(a.t):
                    v = conv(p.t, v)
                bvals.append((p, [copy_val(v)]))
        construct(m, base, o, bc, bvals)
    if ctor is not None:
        ctor.invoke(m, o, vals)


class MCall(Call):
    """A call with a target expression (possibly the implicit this)."""

    def tx(self):
        a = ", ".join(x.tx() for x in self.args)
        if isinstance(self.target, This) and self.target.implicit:
            return "%s(%s)" % (self.method.name, a)
        return Call.tx(self)

    def ev(self, fr):
        if self.target is None or isinstance(self.target, str):
            return Call.ev(self, fr)
        fr.m.tick()
        this = self.target.ev(fr)
        if this is None:
            raise Undef("null")
        m = self.method.resolve(this)
        vals = []
        for p, x in zip(m.params, self.args):
            if x.mode:
                vals.append((p, fr.slots[x.e.name]))
            else:
                v = x.e.ev(fr)
                if is_num(p.t) and is_num(x.e.t):
                    v = conv(p.t, v)
                vals.append((p, [copy_val(v)]))
        return m.invoke(fr.m, this, vals)


class Null(E):
    def __init__(self, t):
        self.t = t

    def tx(self):
        return "null"

    def ev(self, fr):
        return None


class Is(E):
    t = "bool"
    prec = 3

    def __init__(self, a, ty):
        self.a, self.ty = a, ty

    def tx(self):
        return "%s is %s" % (sub(self.a, 14), self.ty)

    def ev(self, fr):
        fr.m.tick()
        return type_is(self.a.ev(fr), self.ty)


def type_is(v, ty):
    if v is None:
        return False
    r = rt_type(v)
    if r is None:
        raise Undef("unboxed")
    if isinstance(ty, str) or isinstance(r, str):
        return ty is OBJECT or r == ty
    return r is ty or (hasattr(r, "is_a") and r.is_a(ty))


class As(E):
    prec = 3

    def __init__(self, a, ty):
        self.a, self.t = a, ty

    def tx(self):
        return "%s as %s" % (sub(self.a, 14), self.t)

    def ev(self, fr):
        fr.m.tick()
        v = self.a.ev(fr)
        return v if type_is(v, self.t) else None


class RefCast(E):
    """(T)e for reference types; an unboxing conversion when T is a value type."""
    prec = 14

    def __init__(self, t, a):
        self.t, self.a = t, a

    def tx(self):
        if has_index(self.a):
            return "(%s)(%s)" % (self.t, self.a.tx())
        return "(%s)%s" % (self.t, sub(self.a, 15))

    def ev(self, fr):
        fr.m.tick()
        v = self.a.ev(fr)
        if v is None:
            if isinstance(self.t, (str, StructT)) and self.t != "string":
                raise Undef("unbox null")
            return None
        if not type_is(v, self.t):
            fr.m.ev("invalid cast")
            raise ThrowX(ExcObj(INVALID_CAST, []))
        if isinstance(v, Boxed):
            return copy_val(v.v) if isinstance(self.t, (str, StructT)) else v
        return copy_val(v) if isinstance(self.t, StructT) else v


class Conv(E):
    """Implicit reference conversion (no text) or boxing of a value."""

    def __init__(self, t, a):
        self.t, self.a = t, a
        self.prec = a.prec

    def tx(self):
        return self.a.tx()

    def ev(self, fr):
        v = self.a.ev(fr)
        if isinstance(self.a.t, str) and self.a.t != "string":
            return Boxed(self.a.t, v)
        if isinstance(self.a.t, StructT):
            return Boxed(self.a.t, copy_val(v))
        if isinstance(self.a.t, EnumT):
            return Boxed(self.a.t, v)
        if self.a.t == "string" and v is not None:
            return v if isinstance(v, Boxed) else Boxed("string", v)
        return v


# ---------------------------------------------------------------- dispatch

class VMethod(Method):
    """An instance method. slot: the declaration that introduced it (itself if new)."""

    def __init__(self, cls, name, ret, params, body, kind, overrides=None):
        mods = {"plain": "public", "virtual": "public virtual", "abstract": "public abstract",
                "override": "public override", "new": "public new",
                "newvirtual": "public new virtual"}[kind]
        Method.__init__(self, name, ret, params, body, mods)
        self.cls, self.kind = cls, kind
        self.slot = overrides.slot if overrides is not None else self
        self.explicit = None

    def is_virtual(self):
        return self.slot.kind in ("virtual", "abstract", "newvirtual")

    def head(self):
        if self.explicit is not None:
            return "%s %s.%s(%s)" % (self.ret, self.explicit, self.name,
                                     ", ".join(p.tx() for p in self.params))
        return Method.head(self)

    def tx(self):
        if self.kind == "abstract":
            return self.head() + ";"
        return Method.tx(self)

    def resolve(self, this):
        if not self.is_virtual():
            return self
        c = this.cls if isinstance(this, Obj) else this.ty
        for k in c.chain():
            for m in k.methods:
                if isinstance(m, VMethod) and m.slot is self.slot and m.explicit is None:
                    return m
        raise Undef("no override")


class IMethod(Method):
    """A method of an interface."""

    def __init__(self, iface, name, ret, params):
        Method.__init__(self, name, ret, params, None, "")
        self.iface = iface

    def resolve(self, this):
        c = this.cls if isinstance(this, Obj) else this.ty
        return impl_of(c, self).resolve(this)


def impl_of(c, im):
    """The method that implements interface method im in class (or struct) c."""
    chain = list(c.chain()) if isinstance(c, ClassT) else [c]
    for k in chain:
        if not any(i is im.iface or im.iface in i.all_bases() for i in k.ifaces):
            continue
        for b in chain[chain.index(k):]:
            for m in b.methods:
                if getattr(m, "explicit", None) is im.iface and same_sig(m, im):
                    return m
            for m in b.methods:
                if same_sig(m, im) and getattr(m, "explicit", None) is None:
                    return m
    raise Undef("not implemented")


def same_sig(a, b):
    return a.name == b.name and [p.t for p in a.params] == [p.t for p in b.params]
