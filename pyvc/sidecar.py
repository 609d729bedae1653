"""Contracts of virtual methods: at a call on an attribute whose kind is not known, the method's contract stands for the
eight bodies.  Each contract is discharged by lemmas of specs/k00.py, in which the bodies themselves run."""
import z3
from .program import Unsupported
from .sym import Sym, STR
from .interp import Virt, View, ClassVal, Obj, LP, DP, Seg, Base, Lazy, ABSENT
from .inputs import Inputs, Variants

OWN = {"clone": "attribute_clone", "__str__": "attribute_text"}


class CloneVariants(Variants):
    """class -> fields of a copy, made by contract, of an attribute of unknown kind."""

    def __init__(self, sc, it, inp, c, o, t):
        v = o.var0
        amap = Lazy(lambda it_: sc.part(it_, c, lambda: it_.at_time(t, lambda: sc.map_of(it_, o))))
        super().__init__(inp, c, v.key, amap, v.ext)
        self.sc, self.it, self.orig, self.t = sc, it, o, t

    def __missing__(self, c):
        it = self.it
        src = self.orig.var0
        src[c]                   # the fields of the original
        f = self.sc.part(it, self.o, lambda: it.at_time(self.t, lambda: self.sc.copy_fields(self, c, src.vals[c])))
        self[c] = f
        return f


class ReadVariants(Variants):
    """An attribute read, by contract, from what was written for an attribute of unknown kind: only its key can be looked at."""

    def __init__(self, inp, c, v):
        def no(it_):
            raise Unsupported("the content of an attribute that was read by contract")
        super().__init__(inp, c, v.key, Lazy(no), Lazy(no))

    def __missing__(self, c):
        raise Unsupported("the content of an attribute that was read by contract")


class Sidecar:
    def __init__(self, ctl, lemma, mode="both", prop=None, depth=None):
        self.prop = prop
        self.ctl = ctl
        self.lemma = lemma
        self.tokens = []
        self.mode = mode
        self.depth = depth if depth is not None else 0 if mode == "induction" else 1
        self.busy = False

    def touched(self, it, o, since):
        """Whether o, or anything inside it, was changed after `since`."""
        for w, t in it.writes.values():
            if t > since:
                x = w
                while x is not None:
                    if x is o:
                        return True
                    x = x.owner
        return False

    def virtual(self, it, o, name):
        """The contract for calling `name` on o, or None when the body is to be used."""
        if it.frames and it.frames[-1] == self.lemma.qual and self.lemma.name == OWN.get(name):
            return None          # the lemma that discharges the contract runs the body
        if name == "clone":
            return None if it.writes.get(o.id) is not None else Virt(o, name)
        if name == "__str__":
            t = getattr(o, "text", None)
            if t is not None and not self.touched(it, o, t[1]):
                return Virt(o, name)
            if t is None and o.cls is None and len(o.cands) > 1 and not self.touched(it, o, 0):
                return Virt(o, name)
        return None

    def call(self, it, v, args, kw):
        return getattr(self, "do_" + v.name.strip("_"))(it, v.o, *args, **kw)

    def do_str(self, it, o):
        """str(a): a text that depends on the attribute only; changes nothing, never raises."""
        if getattr(o, "text", None) is None:
            o.text = (Sym("str", it.path.fresh_term(STR, "text")), it.clock)
            self.ctl.contracts.add("attribute_text")
        return o.text[0]

    # ---- clone: a new attribute of the same kind with the same key, extension and value, copies of the members and nested
    # attributes; changes nothing, never raises, shares nothing that can change with what existed before
    def part(self, it, o, f):
        n0 = len(it.objs)
        v = f()
        for x in it.objs[n0:]:
            x.birth = min(x.birth, o.birth)
            it.writes.pop(x.id, None)
            if x.owner is None and x is not o:
                x.owner = o
        return v

    def do_clone(self, it, o):
        self.ctl.contracts.add("attribute_clone")
        t = it.mark()
        c = it.new(None)
        c.cands = list(o.cands) if o.cls is None else [o.cls]
        c.origin = (o, t)
        o.twins.append(c)
        c.variants = c.var0 = CloneVariants(self, it, Inputs(it), c, o, t)
        c.recipe = None
        if o.cls is not None:
            it.settle(c, c.cands)
        return c

    def map_of(self, it, o):
        m = o.var0.amap.get(it)
        self.ctl.contracts.add("map_clone")
        p = m.p
        if type(p) is DP and p.base is not None and not p.entries and not p.over and m.cls.name == "XAttributeMap":
            return self.map_copy(it, m)
        return it.call(it.getattr(m, "clone"), [])

    def map_copy(self, it, m):
        n = it.new(m.cls, DP())
        src = m.p.base
        t = it.mark()
        b = Base(None)
        b.isdict = True
        b.ksort = src.ksort
        b.derived = None
        b.holder = n
        it.number_base(b)

        def find(it_, k):
            for kk, v in b.got:
                if it.key_eq(kk, k):
                    return v
            v = it.base_find(src, k)
            if v is not ABSENT:
                v = it.made(b, lambda: it.at_time(t, lambda: self.do_clone(it, v)))
            b.got.append((k, v))
            for f in list(b.facts):
                if v is not ABSENT:
                    f(it, k, v)
            return v
        b.find = find

        def run(L):
            n_ = it.base_len(src)
            it.loops.key_fns(src)
            b.key_at, b.pos, b.n = src.key_at, src.pos, src.n

            def at(q):
                k, _ = it.loops.dict_at(src, q)
                return k, find(it, k)
            return n_, at, [(b, z3.IntVal(0)), (src, z3.IntVal(0))]
        b.run = run
        n.p.base = b
        return n

    def copy_fields(self, cv, c, value):
        """Fields of a copy of class c: the constructor is run on the value of the original."""
        it, inp = cv.it, cv.inp
        mark = it.new(it.B("object"))
        it.building += 1
        if c.name in ("XAttributeList", "XAttributeContainer"):
            x = it.instantiate(c, [cv.key, mark], {})
            lst = [y for y in x.f.values() if isinstance(y, Obj) and isinstance(y.p, LP)]
            if len(lst) != 1:
                raise Unsupported("representation of a collection attribute")
            src = [y for y in cv.orig.f.values() if isinstance(y, Obj) and isinstance(y.p, LP)] if cv.orig.cls is c \
                else [y for y in cv.orig.var0[c].values() if isinstance(y, Obj) and isinstance(y.p, LP)]
            lst[0].p = self.list_copy(it, lst[0], src[0])
        else:
            v = value
            if isinstance(v, Obj) and v.cls.name == "XID":
                v = inp.new("XID", self.uuid_of(it, v))
                v.recipe = ("XID", value.recipe[1])
            cv.vals[c] = v
            x = it.instantiate(c, [cv.key, v, mark], {})
        m0 = it.call(it.getattr(x, "get_attributes"), [])
        for f, y in list(x.f.items()):
            if y is m0:
                x.f[f] = cv.amap
            elif y is mark:
                x.f[f] = cv.ext
        it.building -= 1
        return x.f

    def uuid_of(self, it, v):
        if v.recipe and v.recipe[0] == "XID":
            return v.recipe[1]
        raise Unsupported("identifier of an unknown form")

    def list_copy(self, it, holder, src):
        parts = []
        t = it.mark()
        for x in src.p.parts:
            if isinstance(x, Seg):
                n = z3.simplify(x.hi - x.lo)
                b = Base(lambda it_, idx, x=x: it_.at_time(t, lambda: self.do_clone(it_, it_.seg_get(x, z3.simplify(x.lo + idx)))), n)
                b.holder = holder
                it.number_base(b)
                parts.append(Seg(b, z3.IntVal(0), n))
            else:
                parts.append(self.do_clone(it, x))
        return LP(parts)

    def is_copy(self, it, a, c):
        """copied(a, c) for a copy made by contract: what attribute_clone proves of the bodies, by induction over the nesting."""
        return isinstance(c, Obj) and c.origin is not None and len(c.origin) == 2 and c.origin[0] is a and not self.touched(it, a, c.origin[1]) \
            and not self.touched(it, c, c.origin[1])

    def instead(self, it, f, args):
        """(result,) when a contract stands for the call."""
        n = f.name
        if n == "copied" and len(args) == 2:
            return (True,) if self.is_copy(it, *args) else None
        if n == "same_attr" and len(args) == 2:
            return (True,) if self.is_read(it, *args) else None
        if n == "belongs" and len(args) == 1 and isinstance(args[0], Obj) and args[0].origin is not None and len(args[0].origin) == 3:
            if not self.touched(it, args[0], args[0].origin[1]):
                return (None,)
        if n == "get_by_prefix" and len(args) == 2 and self.mode == "induction" and isinstance(args[1], Sym) and not it.building:
            return self.lookup(it, f, args)
        if n in ("format_token", "extract_tokens") and self.mode == "induction" and len(args) == 1 and f.qual.startswith("opyenxes.utils."):
            return getattr(self, n)(it, args[0])
        if len(args) in (3, 4) and (f.qual.startswith("opyenxes.data_out.") or n == "put_all"):
            return self.write_nested(it, f, args)
        return None

    def lookup(self, it, f, args):
        """The extension of a prefix: looked up when the result matters (the lookup changes nothing)."""
        if self.busy:
            return None
        self.ctl.contracts.add("prefix_lookup")
        t = it.mark()

        def make(it_):
            self.busy = True
            try:
                return it.at_time(t, lambda: it.call_func(f, args, {}))
            finally:
                self.busy = False
        return (Lazy(make, True),)

    def format_token(self, it, ks):
        """The text of a list of keys: extract_tokens gives the list back (assumed; the bounded lemma C02.tokens)."""
        if not isinstance(ks, Obj) or type(ks.p) is not LP or ks.p.plain():
            return None
        it.ctl.assume("extract_tokens gives back the keys that format_token wrote (checked on generated keys: lemma tokens of C02)")
        t = it.path.fresh_term(STR, "keys")
        n = it.loops.total(it.loops.parts(ks))
        it.path.assume(z3.Implies(n > 0, z3.Length(t) > 0))
        self.tokens.append((t, ks, it.mark()))
        return (Sym("str", t),)

    def extract_tokens(self, it, text):
        if isinstance(text, Sym):
            for t, ks, when in self.tokens:
                if t.eq(text.t):
                    return (it.at_time(when, lambda: it.loops.to_list(ks)),)
        return None

    # ---- writing the attributes nested in an attribute as XES, and reading them back
    def write_nested(self, it, f, args):
        """A recursive call that writes the attributes args[2] into the element args[1]."""
        tag, src = (args[0] if f.name == "put_all" else args[1]), args[2]
        if sum(q == f.qual for q in it.frames) < self.depth or not isinstance(tag, Obj) or tag.cls is None or tag.cls.name != "Element":
            return None
        kids = it.getattr(tag, "_children")
        if isinstance(src, View) and src.kind == "values" and isinstance(src.d, Obj) and src.d.cls.name == "XAttributeMap":
            d = src.d
            if d.p.base is None or d.p.entries or d.p.over:
                return None
        elif isinstance(src, Obj) and isinstance(src.p, LP) and len(src.p.parts) == 1 and isinstance(src.p.parts[0], Seg):
            d = src
        else:
            return None
        img = it.instantiate(it.prog.classes_by_name["Nested"], [], {})
        img.recipe = ("image", d, it.mark(), f.qual if len(args) == 3 else None)
        it.call(it.getattr(kids, "append"), [img])
        return (None,)

    def read_nested(self, it, img, handler, tag):
        """What the handler does with these elements: the attribute that is being read gets what they say; nothing else changes."""
        _, d, t, by = img.recipe
        if by is None:
            raise Unsupported("attributes that were written in another way")
        prop = "C03." if by.startswith("specs.") else "C01."
        if self.touched(it, d, t):
            raise Unsupported("attributes that change after they were written")
        cls = lambda n: ClassVal(it.prog.classes_by_name[n])
        tops = []
        for v in handler.f.values():
            if isinstance(v, Obj) and v.cls is it.B("list") and type(v.p) is LP and v.p.parts and isinstance(v.p.parts[-1], Obj) \
                    and it.isinst(v.p.parts[-1], cls("XAttributable")) and not it.isinst(v, cls("XAttributable")):
                tops.append(v.p.parts[-1])
        inside = self.reader_state(it, handler, tops, tag)
        if tag == "global":
            return self.read_globals(it, d, t, handler, tops, prop)
        if not tops or any(x is not tops[0] for x in tops):
            raise Unsupported("representation of the state of the reader")
        top = tops[0]
        for n, c in (("XLog", "map_in_log"), ("XTrace", "map_in_trace"), ("XEvent", "map_in_event"), ("XAttributeList", "list_nested"),
                     ("XAttributeContainer", "container_nested"), ("XAttributable", "map_nested")):
            if it.isinst(top, cls(n)):
                self.ctl.contracts.add(prop + c + ("_in_global" if inside else ""))
                break
        m = it.call(it.getattr(top, "get_attributes"), [])
        if m.p.base is not None or m.p.entries or m.p.over:
            raise Unsupported("an attribute that was read twice")
        if isinstance(d.p, DP):
            if it.isinst(top, ClassVal(it.prog.classes_by_name["XAttributeCollection"])):
                raise Unsupported("nested attributes of a collection")
            it.touch(m)
            m.p.base = self.read_map(it, d, m, t)
            it.wrote(m)
        else:
            cs = [y for y in top.f.values() if isinstance(y, Obj) and isinstance(y.p, LP)]
            if len(cs) != 1 or cs[0].p.parts:
                raise Unsupported("representation of a collection attribute")
            self.add_twins(it, cs[0], d, t)
            it.loops.unreadable(m)

    def reader_state(self, it, handler, tops, tag):
        """The state of the reader must be one that the lemmas of the contract start from: fields hold nothing, elements that are
        being read, stacks of these, or the list of the global attributes that are being read.  Returns whether the last is so."""
        stack = [x for v in handler.f.values() if isinstance(v, Obj) and type(v.p) is LP and v.cls is it.B("list") for x in v.p.parts]
        logs = [x for x in stack if isinstance(x, Obj) and it.isinst(x, ClassVal(it.prog.classes_by_name["XLog"]))]
        gs = [it.call(it.getattr(x, n), []) for x in logs for n in ("get_global_trace_attributes", "get_global_event_attributes")]
        inside = False
        for v in handler.f.values():
            if v is None or any(v is x for x in stack):
                continue
            if any(v is g for g in gs):
                inside = True
            elif isinstance(v, Obj) and v.cls is it.B("list") and type(v.p) is LP \
                    and all(isinstance(x, Obj) and it.isinst(x, ClassVal(it.prog.classes_by_name["XAttributable"])) for x in v.p.parts):
                pass
            elif isinstance(v, Obj) and v.cls is it.B("set"):
                pass
            else:
                raise Unsupported("representation of the state of the reader")
        if inside and tag != "global" and not any(it.isinst(x, ClassVal(it.prog.classes_by_name["XAttribute"])) for x in tops):
            raise Unsupported("global attributes are still being read")
        return inside and tag != "global"

    def read_globals(self, it, d, t, handler, tops, prop):
        """The elements directly in a global element: the open list of global attributes gets them."""
        logs = [x for x in tops if it.isinst(x, ClassVal(it.prog.classes_by_name["XLog"]))]
        if len(tops) != 1 or len(logs) != 1 or not isinstance(d.p, LP):
            raise Unsupported("representation of the state of the reader")
        gs = [it.call(it.getattr(logs[0], n), []) for n in ("get_global_trace_attributes", "get_global_event_attributes")]
        open_ = [v for v in handler.f.values() if any(v is g for g in gs)]
        if len(open_) != 1 or open_[0].p.parts:
            raise Unsupported("representation of the state of the reader")
        self.ctl.contracts.add(prop + "globals_back")
        self.add_twins(it, open_[0], d, t)

    def add_twins(self, it, c, d, t):
        it.touch(c)
        x = d.p.parts[0]
        n = z3.simplify(x.hi - x.lo)
        b = Base(lambda it_, idx: self.read_twin(it_, it_.at_time(t, lambda: it_.seg_get(x, z3.simplify(x.lo + idx))), t), n)
        b.holder = c
        it.number_base(b)
        c.p.parts.append(Seg(b, z3.IntVal(0), n))
        it.wrote(c)

    def read_twin(self, it, o, t):
        c = it.new(None)
        c.cands = list(o.cands) if o.cls is None else [o.cls]
        c.origin = (o, t, "read")
        c.variants = c.var0 = ReadVariants(Inputs(it), c, o.var0)
        c.recipe = None
        return c

    def read_map(self, it, d, holder, t):
        src = d.p.base
        b = Base(None)
        b.isdict = True
        b.ksort = src.ksort
        b.derived = None
        b.holder = holder
        it.number_base(b)

        def find(it_, k):
            for kk, v in b.got:
                if it.key_eq(kk, k):
                    return v
            v = it.base_find(src, k)
            if v is not ABSENT:
                v = it.made(b, lambda: it.at_time(t, lambda: self.read_twin(it, v, t)))
            b.got.append((k, v))
            for f in list(b.facts):
                if v is not ABSENT:
                    f(it, k, v)
            return v
        b.find = find

        def run(L):
            n_ = it.base_len(src)
            it.loops.key_fns(src)
            b.key_at, b.pos, b.n = src.key_at, src.pos, src.n

            def at(q):
                k, _ = it.loops.dict_at(src, q)
                return k, find(it, k)
            return n_, at, [(b, z3.IntVal(0)), (src, z3.IntVal(0))]
        b.run = run
        return b

    def is_read(self, it, a, c):
        """same_attr(a, c) for an attribute read by contract: what the lemmas of C01 prove of the bodies, by induction over the nesting."""
        return isinstance(c, Obj) and c.origin is not None and len(c.origin) == 3 and c.origin[0] is a \
            and not self.touched(it, a, c.origin[1]) and not self.touched(it, c, c.origin[1])
