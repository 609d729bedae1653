"""Builtin functions, builtin types and the library functions the program uses, over symbolic values.

Every function here is part of the trusted base: it states what CPython's builtin or library function does."""
import ast
import builtins as _pb
import re
import urllib.parse as _up
import uuid as _uuid
import z3
from .program import Unsupported, ClassInfo
from .sym import (Sym, DT, TD, Infeasible, kind, term, back, boolv, uf, parts_of, unlit, strlit, INT, STR, REAL, BOOL)
from .interp import (TrackLP, Obj, LP, DP, Seg, Base, Opaque, ClassVal, FuncVal, Bound, BM, Ext, Mod, RangeV, GenV, View, EnumVal, PyExc, Lazy,
                     ABSENT, DELETED, NOTIMPL, ReturnS)

FUNCS = {"print", "len", "isinstance", "hash", "abs", "enumerate", "map", "sorted", "zip", "filter", "chr", "ord", "round", "min", "max",
         "sum", "any", "all", "reversed", "id", "repr", "iter", "next", "hasattr", "getattr", "setattr", "callable", "issubclass",
         "divmod", "range", "open", "format", "vars", "pow"}
TYPES = {"list", "dict", "set", "tuple", "str", "int", "bool", "float", "type", "object", "bytes", "frozenset"}
VOCAB = {"requires", "ensures", "forall", "exists", "count", "total", "raised", "fresh", "snapshot", "unchanged", "only_changed",
         "disjoint", "same_kind", "kind_of", "lemma", "parts"}
METHODS = {
    "list": {"append", "insert", "extend", "pop", "remove", "clear", "index", "count", "copy", "sort", "reverse", "__getitem__", "__len__",
             "__iter__", "__contains__", "__setitem__", "__delitem__", "__init__", "__eq__", "__hash__", "__add__", "__ne__", "__str__", "__repr__"},
    "dict": {"get", "keys", "values", "items", "pop", "update", "setdefault", "clear", "copy", "__getitem__", "__len__", "__iter__",
             "__contains__", "__setitem__", "__delitem__", "__init__", "__eq__", "__ne__", "popitem", "__str__", "__repr__"},
    "set": {"add", "remove", "discard", "update", "clear", "copy", "union", "pop", "issubset", "issuperset", "intersection", "difference", "__len__", "__iter__",
            "__contains__", "__init__", "__eq__"},
    "str": {"lower", "upper", "strip", "split", "join", "replace", "startswith", "endswith", "index", "find", "rindex", "rfind", "count",
            "format", "isdigit", "encode", "title", "capitalize", "lstrip", "rstrip", "casefold", "__len__", "isspace", "isalpha", "swapcase",
            "zfill", "partition", "rpartition", "splitlines", "__eq__", "__contains__", "__add__", "__lt__", "__hash__"},
}


class Url:
    """A parse result of urlparse."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Snap:
    def __init__(self, clock, ids, bases):
        self.clock = clock
        self.ids = ids
        self.bases = bases


class Lib:
    """A library object: kind and data."""
    __slots__ = ("k", "d")

    def __init__(self, k, d=None):
        self.k = k
        self.d = d


def thousandth(t):
    """t / 1000 when every coefficient of the sum t is a multiple of 1000, else None."""
    if z3.is_int_value(t):
        n = t.as_long()
        return z3.IntVal(n // 1000) if n % 1000 == 0 else None
    if z3.is_add(t):
        xs = [thousandth(x) for x in t.children()]
        return None if any(x is None for x in xs) else z3.simplify(z3.Sum(xs))
    if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % 1000 == 0:
        r = z3.IntVal(t.arg(0).as_long() // 1000)
        for x in t.children()[1:]:
            r = r * x
        return z3.simplify(r)
    return None


class Builtins:
    def __init__(self, it):
        self.it = it
        self.dtparts = {}
        self.floor_done = {}

    @property
    def path(self):
        return self.it.path

    # ------------------------------------------------------------ names
    def builtin(self, n):
        if n in TYPES:
            return ClassVal(self.it.B(n if n != "frozenset" else "set"))
        if n in FUNCS:
            return Ext(n)
        if n in VOCAB:
            return Ext("vspec." + n)
        if n in self.it.prog.exc:
            return ClassVal(self.it.prog.exc[n])
        if n == "NotImplemented":
            return NOTIMPL
        if n == "super":
            return Ext("super")
        return None

    def extern(self, mod, name):
        full = mod + "." + name
        if mod == "vspec":
            return Ext(full)
        if full == "datetime.datetime":
            return ClassVal(self.it.B("datetime"))
        if full == "uuid.UUID":
            return ClassVal(self.it.B("UUID"))
        if full == "os.path":
            return Mod("os.path")
        if full in ("urllib.parse", "urllib.request", "urllib.error", "xml.sax", "xml.etree", "xml.etree.ElementTree"):
            return Mod(full)
        if full in ("os.sep", "os.path.sep"):
            return "/"
        if full in ("abc.abstractclassmethod", "abc.abstractmethod"):
            return Ext(full)
        return Ext(full)

    def type_name(self, v):
        if isinstance(v, Url):
            return "ParseResult"
        if isinstance(v, Lib):
            return v.k
        return type(v).__name__

    def isinst_ext(self, v, c):
        n = c.name
        if n == "datetime.timedelta":
            return isinstance(v, TD)
        if n == "uuid.UUID":
            return kind(v) == "uuid"
        if n == "str":
            return kind(v) == "str"
        if n in ("collections.abc.Iterable", "typing.Iterable"):
            return isinstance(v, (tuple, GenV, View, RangeV)) or kind(v) == "str" or (isinstance(v, Obj) and (v.p is not None or self.it.find(v, "__iter__") is not None))
        if n == "numbers.Number":
            return kind(v) in ("int", "float", "bool")
        raise Unsupported("isinstance of " + n)

    # ------------------------------------------------------------ calls
    def call_ext(self, f, args, kw, env):
        n = f.name
        if n.startswith("type.__call__:"):
            cid = int(n.split(":")[1])
            c = next(c for c in self.it.prog.all_classes if c.cid == cid)
            return self.it.instantiate(c, args, kw, meta=False)
        key = "x_" + n.replace(".", "_")
        m = getattr(self, key, None)
        if m is None:
            raise Unsupported("call of " + n)
        return m(*args, **kw)

    def x_super(self, c, o):
        from .interp import SuperV
        return SuperV(c.c, o)

    # vocabulary
    def x_vspec_requires(self, c):
        self.path.assume(self.it.truth_term(c) if not isinstance(c, Obj) else self.it.truth(c))

    def x_vspec_ensures(self, c, label=""):
        if isinstance(c, Sym) and c.k == "bool":
            self.it.oblige(c.t, label)
        else:
            self.it.oblige(self.it.truth(c), label)

    def x_vspec_raised(self, f, exc=None):
        try:
            self.it.call(f, [])
        except PyExc as e:
            if exc is None:
                if e.cls.is_sub(self.it.prog.exc["Exception"]):
                    return True
                raise
            if self.it.exc_matches(e, exc):
                return True
            raise
        return False

    def x_vspec_fresh(self, c):
        return self.it.instantiate(c.c, [], {}, meta=False)

    def x_vspec_same_kind(self, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.it.resolve(a) is self.it.resolve(b)
        return self.it.type_name(a) == self.it.type_name(b)

    def x_vspec_kind_of(self, a):
        return self.x_type(a)

    def x_vspec_forall(self, xs, f):
        if self.it.is_symbolic_iter(xs):
            f = self.it.frozen_func(f)
            return self.it.loops.search(xs, lambda x: not self.it.truth(self.it.call(f, [x]))) is None
        return all(self.it.truth(self.it.call(f, [x])) for x in self.it.iterate(xs))

    def x_vspec_exists(self, xs, f):
        if self.it.is_symbolic_iter(xs):
            f = self.it.frozen_func(f)
            return self.it.loops.search(xs, lambda x: self.it.truth(self.it.call(f, [x]))) is not None
        return any(self.it.truth(self.it.call(f, [x])) for x in self.it.iterate(xs))

    def x_vspec_count(self, xs, f):
        return sum(1 for x in self.it.iterate(xs) if self.it.truth(self.it.call(f, [x])))

    def x_vspec_total(self, xs, f):
        r = 0
        for x in self.it.iterate(xs):
            r = self.it.binop(ast.Add(), r, self.it.call(f, [x]))
        return r

    def x_vspec_snapshot(self, *roots):
        self.it.clock += 1
        ids, bases = self.reach(roots, True)
        return Snap(self.it.clock, ids, bases)

    def x_vspec_unchanged(self, s):
        return self.x_vspec_only_changed(s)

    def x_vspec_only_changed(self, s, *objs):
        ok = {id(o) for o in objs}
        for o, t in self.it.writes.values():
            if t > s.clock and id(o) not in ok and self.was_in(o, s):
                return False
        return True

    def was_in(self, o, s):
        while o is not None:
            if id(o) in s.ids:
                return True
            o = o.owner
        return False

    def reach(self, roots, ext=True):
        """ids of the objects reachable from the roots through what is known of them; and the unknown bases met."""
        top = {id(r) for r in roots}
        seen, bases, todo = {}, {}, list(roots)
        xext = self.it.prog.classes_by_name.get("XExtension")
        while todo:
            o = todo.pop()
            if isinstance(o, tuple):
                todo.extend(o)
                continue
            if isinstance(o, View):
                todo.append(o.d)
            if not isinstance(o, Obj) or id(o) in seen:
                continue
            if xext is not None and id(o) not in top and self.it.classes(o)[0].is_sub(xext):
                continue
            seen[id(o)] = o
            for d in [o.f] + list((o.variants or {}).values()):
                for x in d.values():
                    if type(x) is not Lazy:
                        todo.append(x)
                    elif x.done:
                        todo.append(x.v)
                    elif not x.shared:
                        seen[id(x)] = x
            p = o.p
            if isinstance(p, LP):
                for x in p.parts:
                    if isinstance(x, Seg):
                        bases[id(x.base)] = x.base
                        todo.extend(v for _, v in x.base.got)
                    else:
                        todo.append(x)
            elif isinstance(p, DP):
                for k, v in p.entries + p.over:
                    todo += [k, v]
                if p.base is not None:
                    bases[id(p.base)] = p.base
                    for k, v in p.base.got:
                        todo += [k, v]
            elif isinstance(p, Opaque):
                raise Unsupported("frame of an abstracted container")
        return seen, bases

    def x_vspec_disjoint(self, a, b):
        sampled = []
        while True:
            sa, ba = self.reach([a])
            sb, bb = self.reach([b])
            if set(sa) & set(sb):
                return False
            for k in set(ba) & set(bb):
                if not ba[k].scalar:
                    return False
            # containers whose elements are computed: an arbitrary one stands for all
            new = [x for x in list(ba.values()) + list(bb.values()) if x.derived is not None and not any(x is y for y in sampled)]
            if not new:
                return True
            for x in new:
                sampled.append(x)
                self.any_element(x)

    def any_element(self, b):
        """Makes an arbitrary element of a computed container."""
        it = self.it
        if b.isdict:
            if b.run is None:
                raise Unsupported("elements of a set of derived values")
            n, at, trig = b.run(it)
            if it.path.decide(n > 0):
                p = it.path.fresh_term(INT, "any")
                it.path.assume(z3.And(p >= 0, p < n))
                at(p)
        elif b.n is None:
            raise Unsupported("elements of a set of derived values")
        elif it.path.decide(b.n > 0):
            p = it.path.fresh_term(INT, "any")
            it.path.assume(z3.And(p >= 0, p < b.n))
            it.seg_get(Seg(b, z3.IntVal(0), b.n), p)

    # ------------------------------------------------------------ builtin functions
    def x_print(self, *a, **k):
        for x in a:
            if isinstance(x, Obj):
                self.str_(x)

    def x_len(self, v):
        if isinstance(v, Obj):
            m = self.it.find(v, "__len__")
            if m is not None:
                return self.it.call_func(m, [v], {})
        return self.it.length(v)

    def x_isinstance(self, v, c):
        return self.it.isinst(v, c)

    def x_issubclass(self, a, b):
        if isinstance(b, tuple):
            return any(self.x_issubclass(a, x) for x in b)
        return a.c.is_sub(b.c)

    def x_hash(self, v):
        return self.it.hash(v)

    def x_id(self, v):
        if isinstance(v, Obj):
            return 10 ** 6 + 16 * v.id
        raise Unsupported("id()")

    def x_callable(self, v):
        return isinstance(v, (FuncVal, Bound, BM, Ext, ClassVal)) or (isinstance(v, Obj) and self.it.find(v, "__call__") is not None)

    def x_type(self, v):
        if isinstance(v, Obj):
            return ClassVal(self.it.resolve(v))
        if isinstance(v, EnumVal):
            return ClassVal(v.cls)
        n = self.it.type_name(v)
        if n in self.it.prog.builtin_classes:
            return ClassVal(self.it.B(n))
        return Ext("type:" + n)

    def x_abs(self, v):
        if not isinstance(v, Sym):
            if isinstance(v, TD):
                return TD(z3.If(v.us < 0, -v.us, v.us))
            return abs(v)
        if self.path.decide(v.t < 0):
            return back(v.k, z3.simplify(-v.t))
        return v

    def x_round(self, v, n=None):
        if not isinstance(v, Sym):
            return round(v, n) if n is not None else round(v)
        if v.k == "int" and n is None:
            return v
        raise Unsupported("round")

    def x_chr(self, v):
        if type(v) is int:
            return chr(v)
        raise Unsupported("chr")

    def x_ord(self, v):
        if type(v) is str:
            return ord(v)
        raise Unsupported("ord")

    def x_range(self, *a):
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)

    def x_enumerate(self, xs, start=0):
        if self.it.is_symbolic_iter(xs):
            return self.it.loops.enumerate_(xs, start)
        it = self.it

        def go():
            i = start
            for x in it.iterate(xs):
                yield (i, x)
                i += 1
        return GenV(go())

    def x_zip(self, *xs):
        if any(self.it.is_symbolic_iter(x) for x in xs):
            return self.it.loops.zip_(xs)
        its = [self.it.iterate(x) for x in xs]

        def go():
            while True:
                out = []
                for i in its:
                    try:
                        out.append(next(i))
                    except StopIteration:
                        return
                yield tuple(out)
        return GenV(go())

    def x_map(self, f, *xs):
        if any(self.it.is_symbolic_iter(x) for x in xs):
            if len(xs) == 1:
                return self.it.loops.map_(xs[0], lambda v: self.it.call(f, [v]))
            raise Unsupported("map over unknown lists")
        its = [self.it.iterate(x) for x in xs]
        it = self.it

        def go():
            while True:
                out = []
                for i in its:
                    try:
                        out.append(next(i))
                    except StopIteration:
                        return
                yield it.call(f, out)
        return GenV(go())

    def x_filter(self, f, xs):
        it = self.it

        def go():
            for x in it.iterate(xs):
                if it.truth(x if f is None else it.call(f, [x])):
                    yield x
        return GenV(go())

    def x_any(self, xs):
        if self.it.is_symbolic_iter(xs):
            return self.it.loops.any_(xs, True)
        return any(self.it.truth(x) for x in self.it.iterate(xs))

    def x_all(self, xs):
        if self.it.is_symbolic_iter(xs):
            return not self.it.loops.any_(xs, False)
        return all(self.it.truth(x) for x in self.it.iterate(xs))

    def x_sum(self, xs, start=0):
        r = start
        for x in self.it.iterate(xs):
            r = self.it.binop(ast.Add(), r, x)
        return r

    def minmax(self, n, a, key, default=ABSENT):
        xs = list(self.it.iterate(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if default is not ABSENT:
                return default
            raise self.it.exc("ValueError", "empty sequence")
        best = xs[0]
        f = (lambda v: v) if key is None else (lambda v: self.it.call(key, [v]))
        bk = f(best)
        for x in xs[1:]:
            k = f(x)
            if self.it.truth(self.it.order(n, k, bk)):
                best, bk = x, k
        return best

    def x_min(self, *a, key=None, default=ABSENT):
        return self.minmax("__lt__", a, key, default)

    def x_max(self, *a, key=None, default=ABSENT):
        return self.minmax("__gt__", a, key, default)

    def sorted_run(self, xs, key, reverse):
        """The contract of sorted for an unknown number of elements: a permutation without a descent."""
        it = self.it
        parts = it.loops.parts(xs)
        if len(parts) != 1 or isinstance(parts[0], tuple):
            raise Unsupported("sorting a sequence of several parts")
        run = parts[0]
        it.ctl.assume("sorted returns a permutation of its argument in which no element is less than an earlier one "
                      "(the order of the elements is a strict weak order)")
        pi = z3.Function("perm!%d" % it.nobj, z3.IntSort(), z3.IntSort())
        inv = z3.Function("inv!%d" % it.nobj, z3.IntSort(), z3.IntSort())
        it.nobj += 1
        get = it.frozen(run.get)

        def make(it_, idx):
            it.path.assume(z3.And(pi(idx) >= 0, pi(idx) < run.n, inv(pi(idx)) == idx))
            return get(pi(idx))

        def ordered(it_, idx, v):
            for k, w in list(b.got):
                if k is idx or w is v:
                    continue
                before = it.path.decide(z3.simplify(k < idx))
                x, y = (w, v) if before else (v, w)
                if key is not None:
                    x, y = it.call(key, [x]), it.call(key, [y])
                if it.truth(it.order("__lt__" if not reverse else "__gt__", y, x)):
                    raise Infeasible()
        b = Base(make, run.n)
        b.isdict = False
        b.perm = (run, pi, inv)
        b.facts.append(ordered)
        o = it.mklist([])
        b.holder = o
        it.number_base(b)
        o.p.parts.append(Seg(b, z3.IntVal(0), run.n))
        return o

    def x_sorted(self, xs, key=None, reverse=False):
        if self.it.is_symbolic_iter(xs):
            return self.sorted_run(xs, key, reverse)
        out = []
        for x in list(self.it.iterate(xs)):
            k = x if key is None else self.it.call(key, [x])
            i = len(out)
            while i > 0 and self.it.truth(self.it.order("__lt__" if not reverse else "__gt__", k, out[i - 1][0])):
                i -= 1
            out.insert(i, (k, x))
        return self.it.mklist([x for _, x in out])

    def x_reversed(self, xs):
        return GenV(iter(list(self.it.iterate(xs))[::-1]))

    def x_iter(self, xs):
        if self.it.is_symbolic_iter(xs):
            return xs
        return xs if isinstance(xs, GenV) else GenV(self.it.iterate(xs))

    def x_next(self, g, default=ABSENT):
        if not isinstance(g, GenV):
            if default is ABSENT and isinstance(g, Obj) and self.it.is_symbolic_iter(g):
                if self.it.path.decide(term(self.it.length(g)) == 0):
                    raise self.it.exc("StopIteration")
                return self.it.list_get(g, 0)
            raise Unsupported("next")
        try:
            return next(g.it)
        except StopIteration:
            if default is ABSENT:
                raise self.it.exc("StopIteration")
            return default

    def x_hasattr(self, o, n):
        try:
            self.it.getattr(o, n)
            return True
        except PyExc:
            return False

    def x_getattr(self, o, n, default=ABSENT):
        if type(n) is not str:
            raise Unsupported("getattr with unknown name")
        try:
            return self.it.getattr(o, n)
        except PyExc as e:
            if default is ABSENT or e.cls.name != "AttributeError":
                raise
            return default

    def x_setattr(self, o, n, v):
        self.it.setattr(o, n, v)

    def x_repr(self, v):
        return self.repr_(v)

    def x_divmod(self, a, b):
        return (self.it.binop(ast.FloorDiv(), a, b), self.it.binop(ast.Mod(), a, b))

    def x_format(self, v, spec=""):
        return self.format_(v, spec)

    def x_vars(self, o):
        if not isinstance(o, Obj) or o.cls is None:
            raise Unsupported("vars")
        out = []
        for k, v in list(o.f.items()):
            out.append((k, v.get(self.it) if isinstance(v, Lazy) else v))
        return self.it.mkdict(out)

    # ------------------------------------------------------------ library functions
    def x_uuid_uuid4(self):
        v = self.path.fresh("uuid", "uuid4")
        self.it.ctl.assume("uuid4() never returns an identity that is already in use")
        for t in self.path.uuids:
            self.path.assume(v.t != t)
        self.path.uuids.append(v.t)
        self.path.made.append(v.t)
        return v

    def known_uuid(self, t):
        if all(not t.eq(x) for x in self.path.uuids):
            for x in self.path.made:
                self.path.assume(t != x)
            self.path.uuids.append(t)

    def mkuuid(self, s):
        if type(s) is str:
            try:
                u = _uuid.UUID(s)
            except ValueError:
                raise self.it.exc("ValueError", "badly formed hexadecimal UUID string")
            return Sym("uuid", z3.IntVal(u.int))
        if not (isinstance(s, Sym) and s.k == "str"):
            raise self.it.exc("AttributeError", "replace")
        t = s.t
        if not self.path.decide(self.is_fn("uuid", t)):
            raise self.it.exc("ValueError", "badly formed hexadecimal UUID string")
        if t.decl().name() == "u2s":
            return Sym("uuid", t.arg(0))
        r = uf("s2u", STR, INT)(t)
        self.known_uuid(r)
        return Sym("uuid", z3.simplify(r))

    def is_fn(self, what, t):
        if what == "uuid":
            x = t
            while x.num_args() == 1 and x.decl().name() in ("s.lower", "s.upper", "s.strip"):
                x = x.arg(0)
            if x.decl().name() == "u2s":
                return z3.BoolVal(True)
        if what == "int" and t.decl().name() == "i2s":
            return z3.BoolVal(True)
        if what == "float" and t.decl().name() in ("i2s", "f2s"):
            return z3.BoolVal(True)
        return uf("is." + what, STR, BOOL)(t)

    def x_os_path_isfile(self, p):
        return self.no_file(p)

    def x_os_path_isdir(self, p):
        return self.no_file(p)

    def no_file(self, p):
        """A web address names no file."""
        if isinstance(p, str) and p.startswith("http://"):
            return False
        raise Unsupported("files")

    def x_urllib_parse_urlparse(self, s):
        if kind(s) != "str":
            raise Unsupported("urlparse of " + kind(s))
        t = term(s)
        f = uf("url.parse", STR, INT)
        r = f(t)
        g = uf("url.geturl", INT, STR)
        if type(s) is str:
            self.path.assume(g(r) == strlit(_up.urlparse(s).geturl()))
        return Url(r)

    # the text form of an XML tree, and back
    def x_pyvc_hooks_xml_text(self, root):
        self.it.ctl.assume("the XML library gives back the tree it wrote (elements, attributes, texts, order); white space between elements aside")
        self.it.docs.append(root)
        t = uf("xml.doc", INT, STR)(z3.IntVal(len(self.it.docs) - 1))
        self.path.assume(z3.Not(t == z3.StringVal("")))
        return Sym("str", t)

    def x_pyvc_hooks_hears(self, handler):
        """Whether a handler defines what to do with texts."""
        f = self.it.find(handler, "characters")
        g = self.it.find(handler, "ignorableWhitespace")
        return any(not x.qual.startswith("xml.sax") and "models" not in x.qual for x in (f, g))

    def x_pyvc_hooks_xml_document(self, text):
        if kind(text) not in ("str", "bytes") or not isinstance(text, Sym):
            raise Unsupported("an XML document that was not written by ElementTree")
        pre, post, root = "", "", None
        for p in parts_of(text.t):
            if z3.is_string_value(p):
                if root is None:
                    pre += unlit(p)
                else:
                    post += unlit(p)
            elif z3.is_app(p) and p.decl().name() == "xml.doc" and root is None:
                root = self.it.docs[p.arg(0).as_long()]
            else:
                raise Unsupported("an XML document of unknown parts")
        if root is None:
            raise Unsupported("an XML document of unknown parts")
        import xml.sax
        try:
            xml.sax.parseString((pre + "<x/>" + post).encode(), xml.sax.ContentHandler())
        except xml.sax.SAXException as e:
            raise self.it.exc("ValueError", "not well-formed: " + str(e))
        return root

    def x_pyvc_hooks_read_nested(self, img, handler, tag):
        self.it.sidecar.read_nested(self.it, img, handler, tag)

    def x_time_time(self):
        return self.path.fresh("float", "time")

    def x_time_gmtime(self, *a):
        return Lib("time")

    def x_platform_system(self):
        self.it.ctl.assume("the platform is not Windows")
        return "Linux"

    def x_datetime_timedelta(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        us = z3.IntVal(0)
        for v, f in ((days, 86400 * 10 ** 6), (seconds, 10 ** 6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                     (hours, 3600 * 10 ** 6), (weeks, 7 * 86400 * 10 ** 6)):
            if kind(v) == "float":
                if isinstance(v, Sym) or v != int(v):
                    raise Unsupported("timedelta of a float")
                v = int(v)
            us = us + self.it.num(v) * f
        lim = 86400 * 10 ** 15
        us = z3.simplify(us)
        if not self.path.decide(z3.And(us > -lim, us < lim)):
            raise self.it.exc("OverflowError", "timedelta out of range")
        return TD(us)

    def x_datetime_timezone(self, td, name=None):
        lim = 86400 * 10 ** 6
        if not self.path.decide(z3.And(td.us > -lim, td.us < lim)):
            raise self.it.exc("ValueError", "offset must be strictly between -24h and 24h")
        return Lib("timezone", self.us_to_min(td.us))

    def us_to_min(self, us):
        q = shifted(us, 60000000)
        self.path.assume(q * 60000000 == us) if not z3.is_int_value(z3.simplify(q)) else None
        return q

    # ------------------------------------------------------------ construct
    def construct(self, c, args, kw):
        it = self.it
        n = c.builtin
        a = args[0] if args else None
        if n == "exception":
            e = PyExc(c, args[0] if args and type(args[0]) is str else "", where=it.where())
            return e
        if n == "list":
            return it.mklist([]) if not args else self.to_list(a)
        if n == "tuple":
            if not args:
                return ()
            if it.is_symbolic_iter(a):
                return TupleOf(self.to_list(a))
            return tuple(it.iterate(a))
        if n == "set":
            if args and it.is_symbolic_iter(a):
                return it.loops.copy_set(a)
            return it.mkset(list(it.iterate(a)) if args else [])
        if n == "dict":
            o = it.new(it.B("dict"), DP())
            self.init_payload(o, args, kw)
            return o
        if n == "object":
            return it.new(c)
        if n == "type":
            return self.x_type(a)
        if n == "str":
            return "" if not args else self.str_(a)
        if n == "bool":
            if not args:
                return False
            if isinstance(a, Sym) and a.k == "bool":
                return a
            return boolv(it.truth_term(a))
        if n == "int":
            return 0 if not args else self.to_int(a, args[1:])
        if n == "float":
            return 0.0 if not args else self.to_float(a)
        if n == "UUID":
            if "int" in kw:
                raise Unsupported("UUID(int=)")
            return self.mkuuid(a if args else kw.get("hex"))
        if n == "datetime":
            return self.mkdatetime(args, kw)
        raise Unsupported("constructor of " + n)

    def to_list(self, a):
        it = self.it
        if isinstance(a, Obj) and isinstance(a.p, LP) and it.find(a, "__iter__") is None:
            return it.new(it.B("list"), LP(list(a.p.parts)))
        if it.is_symbolic_iter(a):
            return it.loops.to_list(a)
        return it.mklist(list(it.iterate(a)))

    def init_payload(self, o, args, kw):
        it = self.it
        if isinstance(o.p, LP):
            if args:
                o.p.parts = list(self.to_list(args[0]).p.parts)
            return
        if not args and not kw:
            return
        if o.p.isset:
            if args:
                for x in list(it.iterate(args[0])):
                    it.dict_set(o, x, True)
            return
        self.dict_update(o, args, kw)

    def dict_update(self, o, args, kw):
        it = self.it
        if args:
            a = args[0]
            if isinstance(a, Obj) and isinstance(a.p, DP) and not a.p.isset:
                if it.is_symbolic_iter(a):
                    it.loops.copy_dict(o, a)
                else:
                    for k, v in it.pairs(a):
                        it.dict_set(o, k, v)
            else:
                for x in list(it.iterate(a)):
                    k, v = list(it.iterate(x))
                    it.dict_set(o, k, v)
        for k, v in kw.items():
            it.dict_set(o, k, v)

    def to_int(self, a, more=()):
        k = kind(a)
        if more:
            if type(a) is str and type(more[0]) is int:
                return int(a, more[0])
            raise Unsupported("int with base")
        if k == "int":
            return a
        if k == "bool":
            return back("int", z3.simplify(self.it.num(a)))
        if k == "float":
            if not isinstance(a, Sym):
                return int(a)
            self.it.lossy("floating point arithmetic")
            t = a.t
            if t.num_args() == 1 and z3.is_to_real(t):
                return Sym("int", t.arg(0))
            return Sym("int", z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if k == "str":
            if type(a) is str:
                try:
                    return int(a)
                except ValueError:
                    raise self.it.exc("ValueError", "invalid literal for int()")
            cs = self.cells(a)
            if cs is not None and cs:
                return self.cells_int(cs)
            t = a.t
            if not self.path.decide(self.is_fn("int", t)):
                raise self.it.exc("ValueError", "invalid literal for int()")
            if t.decl().name() == "i2s":
                return back("int", t.arg(0))
            return Sym("int", uf("s2i", STR, INT)(t))
        if isinstance(a, Obj):
            m = self.it.find(a, "__int__")
            if m is not None:
                return self.it.call_func(m, [a], {})
        raise self.it.exc("TypeError", "int() argument")

    def to_float(self, a):
        k = kind(a)
        if k == "float":
            return a
        if k in ("int", "bool"):
            if not isinstance(a, Sym):
                return float(a)
            self.it.ctl.assume("floating point arithmetic is treated as real arithmetic")
            self.it.lossy("floating point arithmetic")
            return Sym("float", z3.ToReal(self.it.num(a)))
        if k == "str":
            if type(a) is str:
                try:
                    return float(a)
                except ValueError:
                    raise self.it.exc("ValueError", "could not convert string to float")
            t = a.t
            if not self.path.decide(self.is_fn("float", t)):
                raise self.it.exc("ValueError", "could not convert string to float")
            if t.decl().name() == "f2s":
                return back("float", t.arg(0))
            if t.decl().name() == "i2s":
                return Sym("float", z3.ToReal(t.arg(0)))
            return Sym("float", uf("s2f", STR, REAL)(t))
        raise self.it.exc("TypeError", "float() argument")

    # ------------------------------------------------------------ text of values
    def str_(self, v):
        it = self.it
        k = kind(v)
        if k == "str":
            return v
        if v is None or (not isinstance(v, Sym) and k in ("bool", "int", "float")):
            return str(v)
        if k == "bool":
            return "True" if self.path.decide(v.t) else "False"
        if k == "int":
            r = uf("i2s", INT, STR)(v.t)
            self.path.assume(uf("s2i", STR, INT)(r) == v.t)
            self.path.assume(r != z3.StringVal(""))
            return Sym("str", r)
        if k == "float":
            r = uf("f2s", REAL, STR)(v.t)
            self.path.assume(uf("s2f", STR, REAL)(r) == v.t)
            self.path.assume(r != z3.StringVal(""))
            return Sym("str", r)
        if k == "uuid":
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return str(_uuid.UUID(int=t.as_long()))
            r = uf("u2s", INT, STR)(t)
            self.path.assume(uf("s2u", STR, INT)(r) == t)
            self.path.assume(z3.Length(r) == 36)
            return Sym("str", r)
        if isinstance(v, Obj):
            c = it.sidecar.virtual(it, v, "__str__")
            if c is not None:
                return it.sidecar.call(it, c, [], {})
            m = it.find(v, "__str__")
            if m is None:
                m = it.find(v, "__repr__")
            if m is not None:
                return it.call_func(m, [v], {})
            return self.repr_(v)
        if isinstance(v, PyExc):
            return v.msg if type(v.msg) is str else ""
        if isinstance(v, ClassVal):
            return "<class '%s'>" % v.c.name
        if isinstance(v, tuple):
            return self.repr_(v)
        if isinstance(v, DT):
            return Sym("str", uf("dt2s", INT, INT, STR)(v.inst, z3.IntVal(10 ** 6) if v.off is None else v.off))
        raise Unsupported("str of " + k)

    def repr_(self, v):
        it = self.it
        k = kind(v)
        if v is None or (not isinstance(v, Sym) and k in ("bool", "int", "float", "str")):
            return repr(v)
        if k == "str":
            r = uf("repr", STR, STR)(v.t)
            self.path.assume(uf("unrepr", STR, STR)(r) == v.t)
            self.path.assume(r != z3.StringVal(""))
            return Sym("str", r)
        if k in ("bool", "int", "float", "uuid"):
            return self.str_(v)
        if isinstance(v, tuple):
            r = "("
            for i, x in enumerate(v):
                r = it.concat(r, ", " if i else "")
                r = it.concat(r, self.repr_(x))
            return it.concat(r, ",)" if len(v) == 1 else ")")
        if isinstance(v, Obj):
            m = it.find(v, "__repr__")
            if m is not None:
                return it.call_func(m, [v], {})
            if isinstance(v.p, LP) and v.p.plain():
                r = "["
                for i, x in enumerate(v.p.parts):
                    r = it.concat(r, ", " if i else "")
                    r = it.concat(r, self.repr_(x))
                return it.concat(r, "]")
            if isinstance(v.p, DP) and v.p.base is None:
                r = "{"
                for i, (x, y) in enumerate(v.p.entries):
                    r = it.concat(r, ", " if i else "")
                    r = it.concat(r, self.repr_(x))
                    if not v.p.isset:
                        r = it.concat(it.concat(r, ": "), self.repr_(y))
                return it.concat(r, "}")
            if v.p is not None:
                return it.loops.text_of(v)
            return Sym("str", uf("repr.id", INT, STR)(z3.IntVal(v.id)))
        if isinstance(v, DT):
            return Sym("str", uf("repr.dt", INT, INT, STR)(v.inst, z3.IntVal(10 ** 6) if v.off is None else v.off))
        if isinstance(v, (ClassVal, EnumVal)):
            return repr(v)
        raise Unsupported("repr of " + k)

    def format_(self, v, spec=""):
        if spec == "":
            return self.str_(v)
        if type(spec) is not str:
            raise Unsupported("format specification")
        if not isinstance(v, (Sym, Obj, DT, TD)):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                raise self.it.exc(type(e).__name__, str(e))
        s = spec[:-1] if spec[-1] == "d" else spec
        if kind(v) == "int" and s.isdigit() and (s[0] == "0"):
            w = int(s)
            if not self.path.decide(z3.And(v.t >= 0, v.t < 10 ** w)):
                raise Unsupported("number wider than its field")
            return self.dig(v.t, w)
        raise Unsupported("format specification " + spec)

    def percent(self, a, b):
        if type(a) is not str:
            raise Unsupported("% on an unknown string")
        args = list(b) if isinstance(b, tuple) else [b]
        out, i, j = "", 0, 0
        it = self.it
        while i < len(a):
            if a[i] != "%":
                k = a.find("%", i)
                k = len(a) if k < 0 else k
                out = it.concat(out, a[i:k])
                i = k
                continue
            m = i + 1
            while a[m] in "0123456789.-+ ":
                m += 1
            spec, ty = a[i + 1:m], a[m]
            if ty == "%":
                out = it.concat(out, "%")
            else:
                if j >= len(args):
                    raise it.exc("TypeError", "not enough arguments for format string")
                v = args[j]
                j += 1
                if ty == "s" and not spec:
                    out = it.concat(out, self.str_(v))
                elif ty == "r" and not spec:
                    out = it.concat(out, self.repr_(v))
                elif ty == "d" and kind(v) == "int":
                    out = it.concat(out, self.format_(v, spec + "d" if spec else ""))
                elif not isinstance(v, (Sym, Obj, DT)):
                    out = it.concat(out, ("%" + spec + ty) % v)
                else:
                    raise Unsupported("% format")
            i = m + 1
        if j < len(args) and not isinstance(b, Obj):
            raise it.exc("TypeError", "not all arguments converted")
        return out

    def str_format(self, s, args, kw):
        import string
        out = ""
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out = self.it.concat(out, lit)
            if field is None:
                continue
            if field == "":
                field = str(auto)
                auto += 1
            head = field.split(".")[0].split("[")[0]
            if head.isdigit():
                if int(head) >= len(args):
                    raise self.it.exc("IndexError", "format")
                v = args[int(head)]
            else:
                v = kw[head]
            rest = field[len(head):]
            for x in [y for y in rest.split(".") if y]:
                if "[" in x:
                    raise Unsupported("format field")
                v = self.it.getattr(v, x)
            if conv == "r":
                v = self.repr_(v)
            elif conv == "s":
                v = self.str_(v)
            out = self.it.concat(out, self.format_(v, spec or ""))
        return out

    # ------------------------------------------------------------ fixed-width texts
    def dig(self, t, w):
        """Exactly w decimal digits of 0 <= t < 10**w."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return str(t.as_long()).zfill(w)
        r = uf("dig%d" % w, INT, STR)(t)
        self.path.assume(z3.Length(r) == w)
        self.path.assume(uf("undig%d" % w, STR, INT)(r) == t)
        return Sym("str", r)

    def cells(self, s):
        """A text of known length: one cell per character, a character or (digit term, position, width); else None."""
        if type(s) is str:
            return list(s)
        if not isinstance(s, Sym):
            return None
        out = []
        for p in parts_of(s.t):
            if z3.is_string_value(p):
                out += list(unlit(p))
            elif z3.is_app(p) and p.decl().name().startswith("dig") and p.num_args() == 1:
                w = int(p.decl().name()[3:])
                out += [(p.arg(0), i, w) for i in range(w)]
            elif z3.is_app(p) and p.decl().name() == "i2s" and self.path.valid(z3.And(p.arg(0) >= 0, p.arg(0) <= 9))[0] == "discharged":
                out.append((p.arg(0), 0, 1))
            else:
                return None
        return out

    def str_eq(self, a, b):
        """Equality of two texts of known length: characters and numbers one by one."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and type(y) is str and x.t.num_args() == 1:
                n, t = x.t.decl().name(), x.t.arg(0)
                if n == "i2s":
                    try:
                        return boolv(t == int(y)) if str(int(y)) == y else False
                    except ValueError:
                        return False
                if n == "u2s":
                    import uuid
                    try:
                        return boolv(t == uuid.UUID(y).int) if str(uuid.UUID(y)) == y else False
                    except ValueError:
                        return False
                if n == "f2s":
                    try:
                        float(y)
                    except ValueError:
                        return False
        if not any(isinstance(x, Sym) and any(z3.is_app(p) and p.num_args() == 1 and p.decl().name().startswith("dig") for p in parts_of(x.t)) for x in (a, b)):
            return None
        ca, cb = self.cells(a), self.cells(b)
        if ca is None or cb is None:
            return None
        if len(ca) != len(cb):
            return False
        conj, i = [], 0
        dg = lambda c: not isinstance(c, str) or (c.isascii() and c.isdigit())
        while i < len(ca):
            x, y = ca[i], cb[i]
            if not dg(x) or not dg(y):
                if x != y:
                    return False
                i += 1
                continue
            j = i
            while j < len(ca) and dg(ca[j]) and dg(cb[j]):
                j += 1
            conj.append(self.digits(ca[i:j]) == self.digits(cb[i:j]))
            i = j
        return boolv(z3.simplify(z3.And(*conj))) if conj else True

    def spaced(self, s):
        """The parts of a text made of known texts and of unknown words (not empty, without white space), or None."""
        if type(s) is str or not self.path.words:
            return None
        out, todo = [], [s.t]
        while todo:
            t = todo.pop()
            if z3.is_string_value(t):
                out.append(unlit(t))
                if not out[-1].isascii():
                    return None
            elif t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                todo += reversed(t.children())
            elif z3.is_const(t) and t.decl().name() in self.path.words:
                out.append(Sym("str", t))
            else:
                return None
        return out

    def spell(self, ps):
        r = ""
        for x in ps:
            r = self.it.concat(r, x)
        return r

    def split(self, s, sep):
        """The pieces of an unknown text: a list of unknown length."""
        it = self.it
        t = term(s)
        self.path.lit(sep)
        content = uf("split:" + sep, STR, INT)(t)
        at = lambda i: uf("list.at.str", INT, INT, STR)(content, i if not isinstance(i, int) else z3.IntVal(i))
        n = uf("list.len", INT, INT)(content)
        A = self.path.assume
        A(n >= 1)
        A((n >= 2) == z3.Contains(t, z3.StringVal(sep)))
        A(z3.Implies(n == 1, at(0) == t))
        A(z3.Implies(n == 2, t == z3.Concat(at(0), z3.StringVal(sep), at(1))))
        A(z3.Implies(n >= 2, z3.PrefixOf(z3.Concat(at(0), z3.StringVal(sep)), t)))
        for i in (0, 1):
            A(z3.Not(z3.Contains(at(i), z3.StringVal(sep))))
        A(uf("join:" + sep, INT, STR)(content) == t)
        b = Base(lambda it_, i: Sym("str", at(i)), n, True)
        b.content = content
        o = it.new(it.B("list"), LP([Seg(b, z3.IntVal(0), n)]))
        b.holder = o
        it.number_base(b)
        return o

    def uncells(self, cs):
        it = self.it
        out, i = "", 0
        while i < len(cs):
            c = cs[i]
            if isinstance(c, str):
                out = it.concat(out, c)
                i += 1
                continue
            t, p, w = c
            n = 1
            while i + n < len(cs) and not isinstance(cs[i + n], str) and cs[i + n][0].eq(t) and cs[i + n][1] == p + n:
                n += 1
            d = t if p + n == w else shifted(t, 10 ** (w - p - n))
            out = it.concat(out, self.dig(d if p == 0 else d % (10 ** n), n))
            i += n
        return out

    def cells_int(self, cs):
        it = self.it
        s = [c for c in cs]
        while s and s[0] == " ":
            s.pop(0)
        while s and s[-1] == " ":
            s.pop()
        sign = 1
        if s and s[0] in ("+", "-"):
            sign = -1 if s[0] == "-" else 1
            s.pop(0)
        if not s:
            raise it.exc("ValueError", "invalid literal for int()")
        for i, c in enumerate(s):
            if isinstance(c, str) and not c.isdigit() and not (c == "_" and 0 < i < len(s) - 1):
                raise it.exc("ValueError", "invalid literal for int()")
        s = [c for c in s if c != "_"]
        return back("int", z3.simplify(sign * self.digits(s)))

    def digits(self, s):
        r, i = z3.IntVal(0), 0
        while i < len(s):
            c = s[i]
            if isinstance(c, str):
                r = r * 10 + int(c)
                i += 1
                continue
            t, p, w = c
            n = 1
            while i + n < len(s) and not isinstance(s[i + n], str) and s[i + n][0].eq(t) and s[i + n][1] == p + n:
                n += 1
            q = t if p + n == w else shifted(t, 10 ** (w - p - n))
            q = q if p == 0 else q % (10 ** n)
            r = r * 10 ** n + q
            i += n
        return z3.simplify(r)

    # ------------------------------------------------------------ dates
    def dt_parts(self, v):
        """year, month, day, hour, minute, second, microsecond of a datetime, in its own zone."""
        loc = v.inst if v.off is None else v.inst + v.off * 60000000
        loc = z3.simplify(loc)
        key = loc.sexpr()
        if key in self.dtparts:
            return self.dtparts[key]
        f = self.path.fresh_term
        day, h, m, s, us = f(INT, "day"), f(INT, "hh"), f(INT, "mi"), f(INT, "ss"), f(INT, "us")
        A = self.path.assume
        ms = thousandth(loc)
        if ms is not None:       # whole milliseconds
            n = f(INT, "ms")
            us = 1000 * n
            A(z3.And(n >= 0, n < 1000))
            A(ms == day * 86400000 + h * 3600000 + m * 60000 + s * 1000 + n)
        else:
            A(loc == day * 86400000000 + h * 3600000000 + m * 60000000 + s * 1000000 + us)
        A(z3.And(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60, us >= 0, us < 1000000))
        y, mo, d = (uf("d." + n, INT, INT)(day) for n in ("year", "month", "day"))
        A(z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= 31))
        A(uf("d.make", INT, INT, INT, INT)(y, mo, d) == day)
        A(uf("d.ok", INT, INT, INT, BOOL)(y, mo, d))
        r = (y, mo, d, h, m, s, us)
        self.dtparts[key] = r
        return r

    DTF = {"year": 0, "month": 1, "day": 2, "hour": 3, "minute": 4, "second": 5, "microsecond": 6}

    def calendar(self, y, mo, d):
        """The facts about one literal date."""
        import datetime as _d
        f = uf("d.ok", INT, INT, INT, BOOL)
        try:
            n = _d.date(y, mo, d).toordinal() - 719163
        except ValueError:
            self.path.assume(z3.Not(f(z3.IntVal(y), z3.IntVal(mo), z3.IntVal(d))))
            return
        a = [z3.IntVal(x) for x in (y, mo, d)]
        self.path.assume(f(*a))
        self.path.assume(uf("d.make", INT, INT, INT, INT)(*a) == n)

    def dt_make(self, y, mo, d, h, m, s, us, off):
        """A datetime of given fields; ValueError unless they are valid."""
        ok = z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= 31, h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60, us >= 0, us < 1000000)
        if all(z3.is_int_value(z3.simplify(x)) for x in (y, mo, d)):
            self.calendar(*[z3.simplify(x).as_long() for x in (y, mo, d)])
        parts = list(ok.children()) + [uf("d.ok", INT, INT, INT, BOOL)(y, mo, d)]
        c = z3.simplify(z3.And([t for t in parts if not self.path.local(t)]))
        if not self.path.decide(c):
            raise self.it.exc("ValueError", "field out of range")
        day = uf("d.make", INT, INT, INT, INT)(y, mo, d)
        self.path.assume(z3.And(uf("d.year", INT, INT)(day) == y, uf("d.month", INT, INT)(day) == mo, uf("d.day", INT, INT)(day) == d))
        loc = z3.simplify(day * 86400000000 + h * 3600000000 + m * 60000000 + s * 1000000 + us)
        self.dtparts.setdefault(loc.sexpr(), (y, mo, d, h, m, s, us))
        return DT(loc if off is None else z3.simplify(loc - off * 60000000), off)

    def mkdatetime(self, args, kw):
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        d = dict(zip(names, args))
        d.update(kw)
        tz = d.pop("tzinfo", None)
        fs = [self.it.num(d.get(n, 0)) for n in names[:7]]
        off = None if tz is None else tz.d
        return self.dt_make(*fs, off)

    def strptime(self, s, fmt):
        it = self.it
        cs = self.cells(s)
        if type(fmt) is not str:
            raise Unsupported("strptime of an unknown format")
        if cs is None:
            it.lossy("strptime of an unknown text")
            t = term(s)
            if not self.path.decide(uf("strptime.ok:" + fmt, STR, BOOL)(t)):
                raise it.exc("ValueError", "time data does not match format")
            r = uf("strptime:" + fmt, STR, INT)(t)
            self.path.assume(z3.And(r > -62135596800000000, r < 253402300800000000))
            return DT(r, None)
        if all(isinstance(c, str) for c in cs):
            import datetime as _d
            try:
                x = _d.datetime.strptime("".join(cs), fmt)
            except ValueError:
                raise it.exc("ValueError", "time data does not match format")
            return self.dt_make(*[z3.IntVal(getattr(x, n)) for n in ("year", "month", "day", "hour", "minute", "second", "microsecond")], None)
        val = {"Y": None, "m": z3.IntVal(1), "d": z3.IntVal(1), "H": z3.IntVal(0), "M": z3.IntVal(0), "S": z3.IntVal(0), "f": z3.IntVal(0)}
        i = j = 0

        def bad():
            raise it.exc("ValueError", "time data does not match format")

        def isd(c):
            return not isinstance(c, str) or c.isdigit()
        while j < len(fmt):
            if fmt[j] != "%":
                if i >= len(cs) or cs[i] != fmt[j]:
                    bad()
                i += 1
                j += 1
                continue
            c = fmt[j + 1]
            j += 2
            w = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "f": 6}.get(c)
            if w is None:
                raise Unsupported("strptime %" + c)
            n = 0
            while n < w and i + n < len(cs) and isd(cs[i + n]):
                n += 1
            if n == 0 or (c == "Y" and n < 4):
                bad()
            if n < w and c != "f":
                raise Unsupported("strptime of a short field")
            v = self.digits(cs[i:i + n])
            if c == "f":
                v = v * 10 ** (6 - n)
            val[c] = z3.simplify(v)
            i += n
        if i < len(cs):
            bad()
        return self.dt_make(val["Y"], val["m"], val["d"], val["H"], val["M"], val["S"], val["f"], None)

    def getattr(self, o, n):
        k = kind(o)
        if k == "datetime":
            if n in self.DTF:
                return back("int", z3.simplify(self.dt_parts(o)[self.DTF[n]]))
            if n == "tzinfo":
                return None if o.off is None else Lib("timezone", o.off)
            return BM(o, n, "datetime")
        if k == "timedelta":
            return BM(o, n, "timedelta") if n == "total_seconds" else self._td_attr(o, n)
        if k in ("str", "int", "float", "bool", "uuid", "tuple", "bytes"):
            if k == "str" and n not in METHODS["str"]:
                if not hasattr(str, n):
                    raise self.it.exc("AttributeError", "'str' object has no attribute '%s'" % n)
            if k in ("int", "float", "bool") and not hasattr(int if k != "float" else float, n):
                raise self.it.exc("AttributeError", "'%s' object has no attribute '%s'" % (k, n))
            if k == "tuple" and not hasattr(tuple, n):
                raise self.it.exc("AttributeError", n)
            return BM(o, n, k)
        if isinstance(o, Url):
            return BM(o, n, "ParseResult")
        if isinstance(o, Lib):
            return BM(o, n, o.k)
        if isinstance(o, RevText):
            return BM(o, n, "RevText")
        if isinstance(o, FuncVal) and n == "__name__":
            return o.f.name
        if isinstance(o, Ext):
            if o.name in ("datetime.timezone", "timezone") and n == "utc":
                return Lib("timezone", z3.IntVal(0))
            return Ext(o.name + "." + n)
        if isinstance(o, View):
            return BM(o, n, "view")
        raise Unsupported("attribute %s of %s" % (n, k))

    def _td_attr(self, o, n):
        raise Unsupported("timedelta." + n)

    def payload_attr(self, o, n):
        p = o.p
        t = "list" if isinstance(p, LP) else "dict" if isinstance(p, DP) and not p.isset else "set" if isinstance(p, DP) else None
        if t is None:
            raise Unsupported("method of an abstracted container")
        if n in METHODS[t]:
            return BM(o, n, t)
        return None

    def has_method(self, t, n):
        return n in METHODS[t]

    def object_attr(self, o, n):
        if n in ("__init__", "__str__", "__repr__", "__eq__", "__ne__", "__hash__"):
            return BM(o, n, "object")
        return None

    def object_class_attr(self, c, n):
        if n == "__init__":
            return Ext("object.__init__")
        return None

    def class_method(self, c, n):
        b = c.builtin or c.base_builtin()
        if b == "datetime":
            if n in ("fromtimestamp", "strptime", "utcfromtimestamp", "now"):
                return Ext("datetime.datetime." + n)
        if b in METHODS and n in METHODS[b]:
            return Ext("unbound:%s:%s" % (b, n))
        if b == "dict" and n == "fromkeys":
            return Ext("dict.fromkeys")
        raise Unsupported("%s.%s" % (c.name, n))

    def x_datetime_datetime_strptime(self, s, f):
        return self.strptime(s, f)

    def x_datetime_datetime_fromtimestamp(self, v, tz=None):
        """Naive local time: uninterpreted, but the inverse of timestamp()."""
        t = self.it.num(v)
        if t.sort() == INT:
            t = z3.ToReal(t)
        loc = uf("local", REAL, INT)(t)
        self.it.lossy("local time")
        if tz is not None:
            raise Unsupported("fromtimestamp with a zone")
        return DT(loc, None)

    def __getattr__(self, n):
        if n.startswith("x_unbound:"):
            _, t, name = n.split(":")
            return lambda s, *a, **k: self.method(BM(s, name, t), list(a), k)
        raise AttributeError(n)

    # ------------------------------------------------------------ methods
    def method(self, bm, args, kw):
        m = getattr(self, "m_" + bm.typ, None)
        if m is None:
            raise Unsupported("method of " + bm.typ)
        return m(bm.s, bm.name, args, kw)

    def m_object(self, o, n, args, kw):
        it = self.it
        if n == "__init__":
            return None
        if n == "__eq__":
            return True if o is args[0] else NOTIMPL
        if n == "__ne__":
            return it.not_(it.eq(o, args[0]))
        if n == "__hash__":
            return Sym("int", uf("hash.id", INT, INT)(z3.IntVal(o.id)))
        if n in ("__str__", "__repr__"):
            return Sym("str", uf("repr.id", INT, STR)(z3.IntVal(o.id)))
        raise Unsupported("object." + n)

    def m_RevText(self, o, n, args, kw):
        if n in ("index", "find") and type(args[0]) is str and len(args[0]) == 1 and not args[0].isdigit():
            if args[0] in o.cs:
                return o.cs.index(args[0])
            if n == "find":
                return -1
            raise self.it.exc("ValueError", "substring not found")
        raise Unsupported("method of a reversed text")

    def m_view(self, o, n, args, kw):
        raise Unsupported("method of a view")

    def m_list(self, o, n, args, kw):
        it = self.it
        p = o.p
        if not isinstance(p, LP):
            raise Unsupported("list method on an abstracted list")
        a = args[0] if args else None
        if n == "append":
            it.touch(o)
            (p.raw if type(p) is TrackLP else p.parts).append(a)
            it.wrote(o)
            return None
        if n == "insert":
            it.list_insert(o, a, args[1])
            return None
        if n == "extend":
            self.list_extend(o, a)
            return None
        if n == "pop":
            i = a if args else -1
            if p.plain() and type(i) is int:
                if not -len(p.parts) <= i < len(p.parts):
                    raise it.exc("IndexError", "pop from empty list")
                it.touch(o)
                it.wrote(o)
                return p.parts.pop(i)
            v = it.list_get(o, i)
            L = it.length(o)
            if type(i) is int and i < 0:
                i = back("int", z3.simplify(term(L) + i))
            j, off = it.locate(o, i)
            x = p.parts[j]
            if isinstance(x, Seg):
                it.touch(o)
                p.parts[j:j + 1] = [Seg(x.base, x.lo, off), Seg(x.base, z3.simplify(off + 1), x.hi)]
                it.tidy(o)
            else:
                it.touch(o)
                del p.parts[j]
            it.wrote(o)
            return v
        if n == "clear":
            if p.parts:
                it.touch(o)
                p.parts = []
                it.wrote(o)
            return None
        if n == "copy":
            return it.new(it.B("list"), LP(list(p.parts)))
        if n in ("index", "remove", "count") and not p.plain():
            if n == "index":
                i = it.loops.search(o, lambda x: x is a or it.truth(it.eq(x, a)))
                if i is None:
                    raise it.exc("ValueError", "not in list")
                return i
            raise Unsupported("list.%s on an unknown list" % n)
        if n == "index":
            for i, x in enumerate(p.parts):
                if x is a or it.truth(it.eq(x, a)):
                    return i
            raise it.exc("ValueError", "not in list")
        if n == "remove":
            for i, x in enumerate(p.parts):
                if x is a or it.truth(it.eq(x, a)):
                    it.touch(o)
                    del p.parts[i]
                    it.wrote(o)
                    return None
            raise it.exc("ValueError", "list.remove(x): x not in list")
        if n == "count":
            return sum(1 for x in p.parts if x is a or it.truth(it.eq(x, a)))
        if n == "sort":
            if not p.plain():
                raise Unsupported("sort of an unknown list")
            r = self.x_sorted(o, **kw)
            it.touch(o)
            p.parts = list(r.p.parts)
            it.wrote(o)
            return None
        if n == "reverse":
            if not p.plain():
                raise Unsupported("reverse of an unknown list")
            it.touch(o)
            p.parts.reverse()
            it.wrote(o)
            return None
        if n == "__init__":
            if args:
                parts = list(self.to_list(a).p.parts)
                it.touch(o)
                p.parts = parts
                it.wrote(o)
            return None
        if n == "__getitem__":
            if isinstance(a, tuple) and a and a[0] == "slice":
                return it.getslice(o, a)
            return it.list_get(o, a)
        if n == "__len__":
            return it.length(o)
        if n == "__iter__":
            return o if not p.plain() else GenV(it.live_list(o))
        if n == "__contains__":
            if p.plain():
                return any(y is a or it.truth(it.eq(y, a)) for y in list(p.parts))
            return it.loops.in_list(o, a)
        if n == "__setitem__":
            f = it.B("list")
            keep = o.cls
            o.cls = f
            try:
                it.setitem(o, a, args[1])
            finally:
                o.cls = keep
            return None
        if n == "__eq__":
            return it.eq_payload(o, a) if isinstance(a, Obj) and isinstance(a.p, LP) else NOTIMPL
        if n == "__ne__":
            return it.not_(it.eq_payload(o, a)) if isinstance(a, Obj) and isinstance(a.p, LP) else NOTIMPL
        if n == "__hash__":
            raise it.exc("TypeError", "unhashable type: 'list'")
        if n in ("__str__", "__repr__"):
            r = "["
            if not p.plain():
                return it.loops.text_of(o)
            for i, x in enumerate(p.parts):
                r = it.concat(r, ", " if i else "")
                r = it.concat(r, self.repr_(x))
            return it.concat(r, "]")
        raise Unsupported("list." + n)

    def list_extend(self, o, b):
        it = self.it
        if isinstance(b, Obj) and isinstance(b.p, LP) and it.find(b, "__iter__") is None:
            xs = list(b.p.parts)
        elif it.is_symbolic_iter(b):
            xs = list(it.loops.to_list(b).p.parts)
        else:
            xs = list(it.iterate(b))
        if xs:
            it.touch(o)
            (o.p.raw if type(o.p) is TrackLP else o.p.parts).extend(xs)
            it.wrote(o)

    def m_dict(self, o, n, args, kw):
        it = self.it
        p = o.p
        if not isinstance(p, DP):
            raise Unsupported("dict method on an abstracted dictionary")
        a = args[0] if args else None
        if n == "get":
            v = it.dict_find(o, a)
            return (args[1] if len(args) > 1 else None) if v is ABSENT else v
        if n in ("keys", "values", "items"):
            return View(o, n)
        if n == "pop":
            v = it.dict_del(o, a)
            if v is ABSENT:
                if len(args) > 1:
                    return args[1]
                raise it.exc("KeyError", "key")
            return v
        if n == "update":
            self.dict_update(o, args, kw)
            return None
        if n == "setdefault":
            v = it.dict_find(o, a)
            if v is ABSENT:
                v = args[1] if len(args) > 1 else None
                it.dict_set(o, a, v)
            return v
        if n == "clear":
            if p.entries or p.base is not None:
                it.touch(o)
                p.entries = []
                p.base = None
                p.over = []
                it.wrote(o)
            return None
        if n == "copy":
            r = it.new(it.B("dict"), DP())
            self.dict_update(r, [o], {})
            return r
        if n == "popitem":
            ps = it.pairs(o)
            if not ps:
                raise it.exc("KeyError", "popitem(): dictionary is empty")
            it.dict_del(o, ps[-1][0])
            return ps[-1]
        if n == "__getitem__":
            v = it.dict_find(o, a)
            if v is ABSENT:
                raise it.exc("KeyError", "key")
            return v
        if n == "__setitem__":
            it.dict_set(o, a, args[1])
            return None
        if n == "__delitem__":
            if it.dict_del(o, a) is ABSENT:
                raise it.exc("KeyError", "key")
            return None
        if n == "__contains__":
            return it.dict_find(o, a) is not ABSENT
        if n == "__len__":
            return it.length(o)
        if n == "__iter__":
            return View(o, "keys")
        if n == "__init__":
            self.dict_update(o, args, kw)
            return None
        if n == "__eq__":
            return it.eq_payload(o, a) if isinstance(a, Obj) and isinstance(a.p, DP) else NOTIMPL
        raise Unsupported("dict." + n)

    def m_set(self, o, n, args, kw):
        it = self.it
        p = o.p
        a = args[0] if args else None
        if n == "add":
            it.dict_set(o, a, True)
            return None
        if n in ("remove", "discard"):
            v = it.dict_del(o, a)
            if v is ABSENT and n == "remove":
                raise it.exc("KeyError", "key")
            return None
        if n == "update":
            if it.is_symbolic_iter(a):
                it.loops.set_update(o, a)
                return None
            for x in list(it.iterate(a)):
                it.dict_set(o, x, True)
            return None
        if n == "clear":
            it.touch(o)
            p.entries = []
            p.base = None
            p.over = []
            it.wrote(o)
            return None
        if n == "copy":
            if it.is_symbolic_iter(o):
                return it.loops.copy_set(o)
            return it.mkset([e[0] for e in p.entries])
        if n in ("union", "intersection", "difference"):
            return self.setop({"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub}[n], o, a)
        if n == "__contains__":
            return it.dict_find(o, a) is not ABSENT
        if n == "__len__":
            return it.length(o)
        if n == "__iter__":
            return GenV(it.iterate(o))
        if n == "issubset":
            return all(it.truth(it.contains(a, x)) for x in it.iterate(o))
        if n == "__init__":
            for x in list(it.iterate(a)) if args else []:
                it.dict_set(o, x, True)
            return None
        raise Unsupported("set." + n)

    def setop(self, t, a, b):
        it = self.it
        xs = list(it.iterate(a))
        if t is ast.BitOr:
            return it.mkset(xs + list(it.iterate(b)))
        if t is ast.Sub:
            return it.mkset([x for x in xs if not it.truth(it.contains(b, x))])
        return it.mkset([x for x in xs if it.truth(it.contains(b, x))])

    def m_tuple(self, o, n, args, kw):
        it = self.it
        if n == "index":
            for i, x in enumerate(o):
                if it.truth(it.eq(x, args[0])):
                    return i
            raise it.exc("ValueError", "not in tuple")
        if n == "count":
            return sum(1 for x in o if it.truth(it.eq(x, args[0])))
        if n == "__eq__":
            return it.eq(o, args[0])
        if n == "__hash__":
            return it.hash(o)
        raise Unsupported("tuple." + n)

    def m_int(self, o, n, args, kw):
        if n == "__hash__":
            return self.it.hash(o)
        if n == "__str__":
            return self.str_(o)
        if n == "is_integer" and not isinstance(o, Sym):
            return o.is_integer()
        raise Unsupported("int." + n)

    m_float = m_int
    m_bool = m_int

    def m_bytes(self, o, n, args, kw):
        if isinstance(o, bytes) and n == "decode":
            return o.decode(*args)
        if isinstance(o, Sym) and n == "decode":
            return Sym("str", o.t)
        if n == "join" and o == b"":
            xs = list(self.it.iterate(args[0]))
            if any(kind(x) != "bytes" for x in xs):
                raise self.it.exc("TypeError", "sequence item: expected a bytes-like object")
            if all(isinstance(x, bytes) for x in xs):
                return b"".join(xs)
            if len(xs) == 1:
                return xs[0]
        raise Unsupported("bytes." + n)

    def m_uuid(self, o, n, args, kw):
        if n == "__str__":
            return self.str_(o)
        if n == "__hash__":
            return self.it.hash(o)
        raise Unsupported("UUID." + n)

    def m_ParseResult(self, o, n, args, kw):
        if n == "geturl":
            r = z3.simplify(uf("url.geturl", INT, STR)(o.t))
            if o.t.decl().name() == "url.parse" and z3.is_string_value(o.t.arg(0)):
                return _up.urlparse(unlit(o.t.arg(0))).geturl()
            return Sym("str", r)
        raise Unsupported("ParseResult." + n)

    def m_timezone(self, o, n, args, kw):
        raise Unsupported("timezone." + n)

    def m_datetime(self, o, n, args, kw):
        it = self.it
        if n == "utcoffset":
            return None if o.off is None else TD(z3.simplify(o.off * 60000000))
        if n == "replace":
            if set(kw) == {"tzinfo"} and not args:
                tz = kw["tzinfo"]
                loc = o.inst if o.off is None else o.inst + o.off * 60000000
                if tz is None:
                    return DT(z3.simplify(loc), None)
                return DT(z3.simplify(loc - tz.d * 60000000), tz.d)
            ps = list(self.dt_parts(o))
            off = o.off
            for k, v in kw.items():
                if k == "tzinfo":
                    off = None if v is None else v.d
                else:
                    ps[self.DTF[k]] = it.num(v)
            return self.dt_make(*ps, off)
        if n == "timestamp":
            it.ctl.assume("floating point arithmetic is treated as real arithmetic")
            it.lossy("floating point arithmetic")
            if o.off is None:
                if o.inst.num_args() == 1 and o.inst.decl().name() == "local":
                    return Sym("float", o.inst.arg(0))
                return Sym("float", uf("unlocal", INT, REAL)(o.inst))
            return Sym("float", z3.ToReal(o.inst) / 1000000)
        if n == "astimezone" and args and isinstance(args[0], Lib):
            return DT(o.inst, args[0].d)
        if n == "isoformat":
            return Sym("str", uf("dt.iso", INT, INT, STR)(o.inst, z3.IntVal(10 ** 6) if o.off is None else o.off))
        if n in ("__eq__", "__lt__", "__gt__", "__le__", "__ge__"):
            return it.eq(o, args[0]) if n == "__eq__" else it.order(n, o, args[0])
        raise Unsupported("datetime." + n)

    def m_timedelta(self, o, n, args, kw):
        if n == "total_seconds":
            self.it.lossy("floating point arithmetic")
            return Sym("float", z3.ToReal(o.us) / 1000000)
        raise Unsupported("timedelta." + n)

    def m_str(self, s, n, args, kw):
        it = self.it
        a = args[0] if args else None
        conc = type(s) is str and all(type(x) in (str, int) or x is None for x in args) and not kw
        if conc and n != "join" and n != "format" and n != "encode":
            if n == "split" or n == "splitlines":
                return it.mklist(getattr(s, n)(*args))
            try:
                return getattr(s, n)(*args)
            except (ValueError, TypeError) as e:
                raise it.exc(type(e).__name__, str(e))
        if n == "join":
            if it.is_symbolic_iter(a):
                return it.loops.join(s, a)
            r, first = "", True
            for x in list(it.iterate(a)):
                if kind(x) != "str":
                    raise it.exc("TypeError", "sequence item: expected str instance")
                if not first:
                    r = it.concat(r, s)
                r = it.concat(r, x)
                first = False
            return r
        if n == "format":
            if type(s) is not str:
                raise Unsupported("format of an unknown string")
            return self.str_format(s, args, kw)
        if n == "encode":
            return Sym("bytes", s.t) if isinstance(s, Sym) else s.encode(*args)
        if n in ("lower", "upper", "strip") and not args:
            cs = self.cells(s)
            if cs is not None and n in ("lower", "upper"):
                return self.uncells([getattr(c, n)() if isinstance(c, str) else c for c in cs])
            if n == "strip" and cs is None:
                ps = self.spaced(s)
                if ps:
                    while ps and type(ps[0]) is str:
                        ps[0] = ps[0].lstrip()
                        if ps[0]:
                            break
                        ps.pop(0)
                    while ps and type(ps[-1]) is str:
                        ps[-1] = ps[-1].rstrip()
                        if ps[-1]:
                            break
                        ps.pop()
                    return self.spell(ps)
            return self.path.strfn(n, s)
        if n == "split" and not args and not kw:
            ps = self.spaced(s)
            if ps:
                out, last = [], []
                for x in ps:
                    if type(x) is not str:
                        last.append(x)
                        continue
                    ws = re.split(r"\s+", x)
                    for i, w in enumerate(ws):
                        if i:
                            out.append(last)
                            last = []
                        if w:
                            last.append(w)
                out.append(last)
                return it.mklist([self.spell(x) for x in out if x])
        for x in list(args):
            if kind(x) not in ("str", "int", "None", "tuple"):
                raise it.exc("TypeError", "str." + n)
        cs = self.cells(s)
        if n in ("startswith", "endswith") and len(args) == 1:
            if isinstance(a, tuple):
                return boolv(z3.Or(*[term(self.m_str(s, n, [x], {})) for x in a]))
            if type(s) is str:
                self.path.lit(s)
            if type(a) is str:
                self.path.lit(a)
            f = z3.PrefixOf if n == "startswith" else z3.SuffixOf
            return boolv(f(term(a), term(s)))
        if cs is not None and type(a) is str and len(a) == 1:
            hits = [i for i, c in enumerate(cs) if c == a]
            if a.isdigit() and any(not isinstance(c, str) for c in cs):
                raise Unsupported("search for a digit")
            if n in ("index", "find", "rindex", "rfind"):
                if not hits:
                    if n.endswith("find"):
                        return -1
                    raise it.exc("ValueError", "substring not found")
                return hits[-1 if n[0] == "r" else 0]
            if n == "count":
                return len(hits)
            if n == "split" and len(args) == 1:
                out, last = [], 0
                for h in hits:
                    out.append(cs[last:h])
                    last = h + 1
                out.append(cs[last:])
                return it.mklist([self.uncells(x) for x in out])
            if n == "replace" and type(args[1]) is str:
                out = []
                for c in cs:
                    out += list(args[1]) if c == a else [c]
                return self.uncells(out)
        if n == "replace" and len(args) == 2:
            for x in (s, a, args[1]):
                if type(x) is str:
                    self.path.lit(x)
            it.lossy("str.replace is uninterpreted")
            r = uf("s.replace", STR, STR, STR, STR)(term(s), term(a), term(args[1]))
            if type(a) is str and a != "":
                self.path.assume(z3.Implies(z3.Not(z3.Contains(term(s), term(a))), r == term(s)))
            return Sym("str", r)
        if n == "__len__":
            return it.length(s)
        if n == "__eq__":
            return it.eq(s, a)
        if n == "__hash__":
            return it.hash(s)
        if n == "isdigit":
            it.lossy("str.isdigit is uninterpreted")
            return Sym("bool", uf("s.isdigit", STR, BOOL)(term(s)))
        if n in ("index", "find"):
            i = z3.IndexOf(term(s), term(a), 0)
            if n == "index" and self.path.decide(i < 0):
                raise it.exc("ValueError", "substring not found")
            return back("int", i)
        if n in ("rindex", "rfind"):
            it.lossy("str.rindex is uninterpreted")
            c = z3.Contains(term(s), term(a))
            if not self.path.decide(c):
                if n == "rfind":
                    return -1
                raise it.exc("ValueError", "substring not found")
            r = uf("s.rindex", STR, STR, INT)(term(s), term(a))
            self.path.assume(z3.And(r >= 0, r + z3.Length(term(a)) <= z3.Length(term(s)), z3.SubString(term(s), r, z3.Length(term(a))) == term(a)))
            return back("int", r)
        if n == "split" and len(args) == 1 and not kw and type(a) is str and a:
            return self.split(s, a)
        raise Unsupported("str." + n + " on an unknown string")

    def str_index(self, o, i):
        cs = self.cells(o)
        if cs is not None:
            if not -len(cs) <= i < len(cs):
                raise self.it.exc("IndexError", "string index out of range")
            return self.uncells([cs[i]])
        n = z3.Length(o.t)
        if i < 0:
            if not self.path.decide(n >= -i):
                raise self.it.exc("IndexError", "string index out of range")
            return back("str", z3.simplify(z3.SubString(o.t, n + i, 1)))
        if not self.path.decide(n > i):
            raise self.it.exc("IndexError", "string index out of range")
        return back("str", z3.simplify(z3.SubString(o.t, i, 1)))

    def getslice(self, o, a, b, step):
        if isinstance(o, RevText) and all(x is None or type(x) is int for x in (a, b, step)):
            return self.text(o.cs[slice(a, b, step)], -1)
        if kind(o) == "str":
            cs = self.cells(o)
            if cs is not None and all(x is None or type(x) is int for x in (a, b, step)):
                return self.text(cs[slice(a, b, step)], step)
            if type(step) is int and step == -1 and a is None and b is None:
                t = term(o)
                f = uf("s.reversed", STR, STR)
                if z3.is_app(t) and t.decl().eq(f):
                    return back("str", t.arg(0))
                self.path.assume(z3.And(z3.Length(f(t)) == z3.Length(t), f(f(t)) == t))
                return Sym("str", f(t))
            if step in (None, 1):
                s = term(o)
                n = z3.Length(s)
                if type(o) is str:
                    self.path.lit(o)

                def at(x, dflt):
                    if x is None:
                        return dflt
                    t = term(x)
                    if type(x) is int:
                        if x < 0:
                            t = n + x
                            return t if self.path.decide(t >= 0) else z3.IntVal(0)
                        return t if self.path.decide(t <= n) else n
                    if self.path.decide(t < 0):
                        t = n + t
                        if self.path.decide(t < 0):
                            t = z3.IntVal(0)
                    if self.path.decide(t > n):
                        t = n
                    return t
                i, j = at(a, z3.IntVal(0)), at(b, n)
                if self.path.decide(j <= i):
                    return ""
                return back("str", z3.simplify(z3.SubString(s, i, j - i)))
        if isinstance(o, Obj) and isinstance(o.p, LP):
            return self.it.loops.slice_list(o, a, b, step)
        if isinstance(o, (str, tuple)) :
            raise Unsupported("slice with unknown bounds")
        raise Unsupported("slice of " + kind(o))

    def whole(self, cs):
        """Whether the digits in cs are complete numbers, in order."""
        i = 0
        while i < len(cs):
            if isinstance(cs[i], str):
                i += 1
                continue
            t, p, w = cs[i]
            if p != 0 or any(i + j >= len(cs) or isinstance(cs[i + j], str) or not cs[i + j][0].eq(t) or cs[i + j][1] != j for j in range(w)):
                return False
            i += w
        return True

    def text(self, cs, step=None):
        if self.whole(cs) or not (step is not None and step < 0):
            return self.uncells(cs)
        return RevText(cs)

    def setitem(self, o, i, v):
        return False

    def getitem(self, o, i):
        if isinstance(o, RevText) and type(i) is int:
            return self.uncells([o.cs[i]])
        if kind(o) == "str":
            if isinstance(i, Sym):
                cs = self.cells(o)
                if cs is not None:
                    for j in range(len(cs)):
                        if self.it.truth(self.it.eq(i, j)):
                            return self.uncells([cs[j]])
                    raise Unsupported("string index")
                n = z3.Length(term(o))
                if not self.path.decide(z3.And(i.t >= -n, i.t < n)):
                    raise self.it.exc("IndexError", "string index out of range")
                return back("str", z3.SubString(term(o), z3.If(i.t < 0, n + i.t, i.t), 1))
            raise self.it.exc("TypeError", "string indices must be integers")
        if isinstance(o, (Sym, DT, Url, EnumVal, FuncVal)) or kind(o) in ("int", "float", "bool"):
            raise self.it.exc("TypeError", "object is not subscriptable")
        return None

    def truth(self, v):
        return None

    def eq(self, a, b):
        if isinstance(a, Url) and isinstance(b, Url):
            if self.both_lit(a, b):
                return _up.urlparse(unlit(a.t.arg(0))) == _up.urlparse(unlit(b.t.arg(0)))
            return boolv(a.t == b.t)
        if isinstance(a, Url) or isinstance(b, Url):
            return False
        if isinstance(a, TupleOf) and isinstance(b, TupleOf):
            return self.it.eq_payload(a.o, b.o)
        if isinstance(a, Lib) and isinstance(b, Lib) and a.k == b.k == "timezone":
            return boolv(a.d == b.d)
        return None

    def both_lit(self, a, b):
        return all(x.t.decl().name() == "url.parse" and z3.is_string_value(x.t.arg(0)) for x in (a, b))

    def order(self, n, a, b):
        return None

    def concat(self, a, b):
        return None

    def binop(self, t, a, b):
        ka, kb = kind(a), kind(b)
        if ka == "datetime" and kb == "timedelta" and t in (ast.Add, ast.Sub):
            return DT(z3.simplify(a.inst + b.us if t is ast.Add else a.inst - b.us), a.off)
        if ka == "timedelta" and kb == "datetime" and t is ast.Add:
            return DT(z3.simplify(b.inst + a.us), b.off)
        if ka == kb == "datetime" and t is ast.Sub:
            if (a.off is None) != (b.off is None):
                raise self.it.exc("TypeError", "can't subtract offset-naive and offset-aware datetimes")
            return TD(z3.simplify(a.inst - b.inst))
        if ka == kb == "timedelta":
            if t is ast.Add:
                return TD(z3.simplify(a.us + b.us))
            if t is ast.Sub:
                return TD(z3.simplify(a.us - b.us))
            if t is ast.FloorDiv:
                d = z3.simplify(b.us)
                if z3.is_int_value(d) and d.as_long() > 0:
                    n = z3.simplify(a.us)
                    if d.as_long() == 60000000 and n.decl().kind() == z3.Z3_OP_MUL and n.num_args() == 2 \
                            and z3.is_int_value(n.arg(0)) and n.arg(0).as_long() == 60000000:
                        return back("int", n.arg(1))
                    return back("int", z3.simplify(n / d))
                raise Unsupported("timedelta division")
            if t is ast.Div:
                self.it.lossy("floating point arithmetic")
                return Sym("float", z3.ToReal(a.us) / z3.ToReal(b.us))
            if t is ast.Mod:
                return TD(z3.simplify(a.us % b.us))
        if ka == "timedelta" and kb == "int":
            if t is ast.Mult:
                return TD(z3.simplify(a.us * term(b)))
            if t is ast.FloorDiv and type(b) is int and b > 0:
                return TD(z3.simplify(a.us / b))
        return None

    def length(self, v):
        if isinstance(v, RevText):
            return len(v.cs)
        if isinstance(v, TupleOf):
            return self.it.length(v.o)
        return None

    def contains(self, c, x):
        if isinstance(c, RevText):
            if type(x) is str and len(x) == 1 and not x.isdigit():
                return x in c.cs
            raise Unsupported("search in a reversed text")
        if isinstance(c, Sym) and c.k == "str" and type(x) is str and len(x) == 1 and not x.isdigit():
            cs = self.cells(c)
            if cs is not None:
                return x in cs
        return None

    def iterate(self, v):
        return None

    def hash_(self, v):
        if isinstance(v, Url):
            return Sym("int", uf("hash.url", INT, INT)(v.t))
        if isinstance(v, TupleOf):
            return self.it.loops.hash_list(v.o)
        if isinstance(v, (FuncVal, Ext, Bound, BM)):
            return Sym("int", z3.IntVal(id(v)))
        return None

    def enter(self, m):
        if isinstance(m, Obj):
            return self.it.call(self.it.getattr(m, "__enter__"), [])
        raise Unsupported("with")

    def leave(self, m, e=None):
        """Whether the exception e is swallowed."""
        r = self.it.call(self.it.getattr(m, "__exit__"), [None, None, None] if e is None else [ClassVal(e.cls), e, None])
        return e is not None and self.it.truth(r)


def shifted(t, k):
    """t // k, for a text's digits."""
    t = z3.simplify(t)
    out = z3.IntVal(0)
    for x in (t.children() if z3.is_add(t) else [t]):
        c, y = (x.arg(0), x.arg(1)) if z3.is_mul(x) and x.num_args() == 2 else (x, z3.IntVal(1))
        if not z3.is_int_value(c) or c.as_long() % k:
            return t / k
        out = out + (c.as_long() // k) * y
    return z3.simplify(out)



class TupleOf:
    """tuple(list of unknown length)"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


class RevText:
    """A reversed text of known length."""

    def __init__(self, cs):
        self.cs = cs
