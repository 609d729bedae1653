"""Unknown inputs: objects built by running the real constructors on unknown arguments; their containers hold an unknown
number of elements that are made when they are looked at."""
import z3
from .program import Unsupported
from .sym import Sym, DT, uf, INT, STR, REAL, BOOL, SORT
from .interp import Obj, LP, DP, Seg, Base, ClassVal, Lazy, ABSENT, FuncVal
from .builtins_ import Url

KINDS = ["Literal", "Discrete", "Continuous", "Boolean", "Timestamp", "ID", "List", "Container"]
SPAN = 300000 * 86400 * 10 ** 6


class Variants(dict):
    """class -> fields of an unknown attribute if it is of that class."""

    def __init__(self, inp, o, key, amap, ext):
        self.inp, self.o, self.key, self.amap, self.ext = inp, o, key, amap, ext
        self.vals = {}

    def __missing__(self, c):
        f, roles = self.inp.part(self.o, lambda: self.inp.variant(c, self.key, self.amap, self.ext, self.vals))
        self[c] = f
        known = self.inp.it.ctl.roles.setdefault(c, roles)
        if known != roles:
            raise Unsupported("constructor of %s with several representations" % c.name)
        return f

    def field(self, c, n):
        """(whether the class has the field, the value if all kinds share it)"""
        it = self.inp.it
        if c not in it.ctl.roles:
            # a specimen, made once; object and constant numbers stay the same on every path
            keep = it.nobj, it.path.n
            skip = 10 ** 6 * (len(it.ctl.roles) + 1)
            it.nobj, it.path.n = keep[0] + skip, keep[1] + skip
            it.ctl.roles[c] = self.inp.part(self.o, lambda: self.inp.variant(c, self.key, self.amap, self.ext, {}))[1]
            it.nobj, it.path.n = keep
        r = it.ctl.roles[c]
        if n not in r:
            return False, None
        return True, {None: None, "key": self.key, "map": self.amap, "ext": self.ext}[r[n]] if r[n] else ABSENT


class Inputs:
    def __init__(self, it, ms=False):
        self.it = it
        self.ms = ms             # instants of whole milliseconds only

    @property
    def path(self):
        return self.it.path

    def cls(self, n):
        c = self.it.prog.classes_by_name.get(n)
        if c is None:
            raise Unsupported("class %s not found" % n)
        return c

    # ---- scalars
    def scalar(self, k, hint):
        v = self.path.fresh(k, hint)
        if k == "uuid":
            self.path.assume(z3.And(v.t >= 0, v.t < 2 ** 128))
            self.it.bi.known_uuid(v.t)
        return v

    def stamp(self, hint="dt"):
        inst = self.path.fresh_term(INT, hint)
        if self.ms:
            inst = 1000 * inst
        off = self.path.fresh_term(INT, "off")
        self.path.assume(z3.And(off > -1440, off < 1440, inst > -62000000000 * 10 ** 6, inst < 250000000000 * 10 ** 6))
        return DT(inst, off)

    def new(self, name, *args):
        return self.it.instantiate(self.cls(name), list(args), {})

    def call(self, o, meth, *args):
        return self.it.call(self.it.getattr(o, meth), list(args))

    def xid(self):
        u = self.scalar("uuid", "id")
        o = self.new("XID", u)
        o.recipe = ("XID", u)
        return o

    def url(self, hint="uri"):
        s = self.path.fresh("str", hint)
        u = self.it.bi.x_urllib_parse_urlparse(s)
        return u, s

    def extension(self):
        n, p = self.scalar("str", "xname"), self.scalar("str", "xprefix")
        u, s = self.url()
        o = self.new("XExtension", n, p, u)
        o.recipe = ("XExtension", n, p, s)
        return o

    # ---- containers
    def fill_list(self, o, make, recipe=None, scalar=None):
        """o (a list) gets an unknown number of elements."""
        n = self.path.fresh_term(INT, "n")
        self.path.assume(n >= 0)
        b = Base(make, n, scalar is not None)
        b.holder = o
        self.it.number_base(b)
        if scalar is not None:
            b.content = self.path.fresh_term(INT, "content")
            ln = uf("list.len", INT, INT)
            self.path.assume(n == ln(b.content))
        o.p = LP([Seg(b, z3.IntVal(0), n)])
        b.recipe = recipe
        return b

    def scalar_list(self, k, hint="x"):
        o = self.it.new(self.it.B("list"), LP())
        b = None

        def make(it, idx):
            t = uf("list.at." + k, INT, INT, SORT[k])(b.content, idx)
            return Sym(k, t)
        b = self.fill_list(o, make, scalar=k)
        o.recipe = ("list", b)
        return o

    def attr_map(self):
        o = self.new("XAttributeMap")
        b = Base(lambda it, k: self.attribute(k))
        b.isdict = True
        b.ksort = "str"
        b.holder = o
        b.only = lambda it, k: self.is_str(k)
        self.it.number_base(b)
        o.p.base = b
        o.recipe = ("map", b)
        return o

    def map_of(self, make):
        """A dictionary from texts to values, with unknown entries."""
        o = self.it.new(self.it.B("dict"), DP())
        b = Base(lambda it, k: self.part(o, lambda: make(k)))
        b.isdict = True
        b.ksort = "str"
        b.holder = o
        b.only = lambda it, k: self.is_str(k)
        self.it.number_base(b)
        o.p.base = b
        return o

    def is_str(self, k):
        return type(k) is str or (isinstance(k, Sym) and k.k == "str")

    def part(self, o, f):
        n0 = len(self.it.objs)
        v = self.it.under(f)
        for x in self.it.objs[n0:]:
            if x.owner is None:
                x.owner = o
        return v

    # ---- attributes
    def attribute(self, key, kinds=KINDS):
        """An attribute of an unknown kind: the fields of a kind are made when they matter."""
        it = self.it
        o = it.new(None)
        amap = Lazy(lambda it_: self.part(o, self.attr_map))
        ext = Lazy(lambda it_: None if self.path.pick(2) == 0 else self.part(o, self.extension), True)
        o.cands = [self.cls("XAttribute" + kd) for kd in kinds]
        o.variants = o.var0 = Variants(self, o, key, amap, ext)
        o.recipe = ("attr", key, o.variants.vals, amap, ext)
        if len(o.cands) == 1:
            it.settle(o, o.cands)
        return o

    def variant(self, c, key, amap, ext, vals):
        """The fields of an attribute of class c, and which of them every kind shares."""
        it = self.it
        kd = c.name[len("XAttribute"):]
        mark = it.new(it.B("object"))
        it.building += 1
        v = self.value(kd)
        if kd in ("List", "Container"):
            x = it.instantiate(c, [key, mark], {})
            lst = [y for y in x.f.values() if isinstance(y, Obj) and isinstance(y.p, LP)]
            if len(lst) != 1:
                raise Unsupported("representation of a collection attribute")
            v = self.fill_list(lst[0], lambda it_, idx: self.attribute(self.scalar("str", "ckey")))
        else:
            x = it.instantiate(c, [key, v, mark], {})
        m0 = self.call(x, "get_attributes")
        # the empty map of the constructor and the extension become unknown
        roles = {}
        for f, y in list(x.f.items()):
            roles[f] = None
            if y is m0:
                x.f[f] = amap
                roles[f] = "map"
            elif y is mark:
                x.f[f] = ext
                roles[f] = "ext"
            elif y is key:
                roles[f] = "key"
        if "map" not in roles.values() or "ext" not in roles.values():
            raise Unsupported("representation of an attribute")
        vals[c] = v
        it.building -= 1
        return x.f, roles

    def value(self, kd):
        if kd == "Literal":
            return self.scalar("str", "text")
        if kd == "Discrete":
            return self.scalar("int", "num")
        if kd == "Continuous":
            return self.scalar("float", "real")
        if kd == "Boolean":
            return self.scalar("bool", "flag")
        if kd == "Timestamp":
            return self.stamp()
        if kd == "ID":
            return self.xid()
        return None

    # ---- model
    def event(self):
        i = self.xid()
        o = self.new("XEvent", None, i)
        m = self.attr_map()
        self.call(o, "set_attributes", m)
        o.recipe = ("event", m, i)
        return o

    def trace(self):
        o = self.new("XTrace", None)
        m = self.attr_map()
        self.call(o, "set_attributes", m)
        b = self.fill_list(o, lambda it, idx: self.event())
        o.recipe = ("trace", m, b)
        return o

    def log(self):
        o = self.new("XLog", None)
        m = self.attr_map()
        self.call(o, "set_attributes", m)
        b = self.fill_list(o, lambda it, idx: self.trace())
        g1 = self.fill_list(self.call(o, "get_global_trace_attributes"), lambda it, idx: self.attribute(self.scalar("str", "gkey")))
        g2 = self.fill_list(self.call(o, "get_global_event_attributes"), lambda it, idx: self.attribute(self.scalar("str", "gkey")))
        cs = self.fill_list(self.call(o, "get_classifiers"), lambda it, idx: self.classifier())
        o.recipe = ("log", m, b, g1, g2, cs)
        return o

    def classifier(self):
        n, ks = self.scalar("str", "cname"), self.scalar_list("str")
        o = self.new("XEventAttributeClassifier", n, ks)
        o.recipe = ("classifier", n, ks)
        return o

    # ---- by annotation (the concrete one of the imported spec module)
    def make(self, ann, hint):
        import vspec
        import uuid
        if isinstance(ann, vspec._TypeExpr):
            a = ann.args
            if ann.op == "Xml":
                return Inputs(self.it, ms=True).make(a[0], hint)
            if ann.op == "Opt":
                return None if self.path.pick(2) == 0 else self.make(a[0], hint)
            if ann.op in ("Key", "XmlStr"):
                return self.scalar("str", hint)
            if ann.op == "Word":
                v = self.scalar("str", hint)
                self.path.assume(z3.And(z3.Length(v.t) > 0, z3.Not(z3.Contains(v.t, z3.StringVal(" ")))))
                self.path.assume(self.path.strfn("strip", v).t == v.t)
                self.path.words.add(v.t.decl().name())
                return v
            if ann.op == "Stamp":
                return self.stamp(hint)
            if ann.op == "Nat":
                v = self.scalar("int", hint)
                self.path.assume(v.t >= 0)
                return v
            if ann.op == "Const":
                return a[self.path.pick(len(a))]
            if ann.op == "OneOf":
                return self.make(a[self.path.pick(len(a))], hint)
            if ann.op == "List":
                e = a[0]
                k = "str" if e is str or getattr(e, "op", "") in ("Key", "XmlStr") else {int: "int", float: "float"}.get(e)
                if k is not None:
                    return self.scalar_list(k, hint)
                o = self.it.new(self.it.B("list"), LP())
                b = self.fill_list(o, lambda it, idx: self.make(e, hint))
                o.recipe = ("list", b)
                return o
            if ann.op == "Map":
                return self.map_of(lambda k: self.make(a[1], "value"))
            raise Unsupported("input " + repr(ann))
        if ann in (str, int, float, bool):
            return self.scalar(ann.__name__, hint)
        if ann is uuid.UUID:
            return self.scalar("uuid", hint)
        n = ann.__name__
        if n == "XID":
            return self.xid()
        if n == "XAttribute":
            return self.attribute(self.scalar("str", "key"))
        if n.startswith("XAttribute") and n[10:] in KINDS:
            return self.attribute(self.scalar("str", "key"), [n[10:]])
        if n == "XAttributeMap":
            return self.attr_map()
        if n == "XEvent":
            return self.event()
        if n == "XTrace":
            return self.trace()
        if n == "XLog":
            return self.log()
        if n == "XElement":
            return [self.event, self.trace, self.log][self.path.pick(3)]()
        if n == "XExtension":
            return self.extension()
        if n == "XEventAttributeClassifier":
            return self.classifier()
        if n == "XEventClass":
            o = self.new("XEventClass", self.scalar("str", "class"), self.scalar("int", "index"))
            self.call(o, "set_size", self.scalar("int", "size"))
            return o
        raise Unsupported("input of type " + n)
