"""Symbolic interpreter of the Python subset, over the AST of the real source files."""
import ast
import z3
from .program import Unsupported, ClassInfo, FuncInfo, mangle
from .sym import (Sym, DT, TD, Path, Infeasible, PathEnd, kind, term, back, boolv, uf, INT, STR, BOOL, REAL, SORT)


class Obj:
    """An object of a user class, or a list / dict / set (payload p)."""
    __slots__ = ("cls", "cands", "variants", "f", "p", "id", "old", "owner", "birth", "recipe", "text", "made", "var0", "twins", "origin")

    def __init__(self, cls, id, f=None, p=None):
        self.cls = cls
        self.cands = None
        self.variants = None
        self.f = {} if f is None else f
        self.p = p
        self.id = id
        self.old = False
        self.owner = None
        self.birth = 0
        self.var0 = None         # how its fields were made, for an attribute of an unknown kind
        self.twins = []          # unresolved copies of it, made by contract
        self.origin = None       # (object, time): this is a copy of it
        self.recipe = None
        self.text = None

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name if self.cls else "|".join(c.name for c in self.cands or ()), self.id)


class Base:
    """The unknown part of an input container.  make(ctx, key) -> value, created on demand."""

    def __init__(self, make, n=None, scalar=False):
        self.make = make
        self.n = n               # z3 length
        self.scalar = scalar     # the elements are scalars
        self.derived = None      # the base this one is computed from
        self.find = None         # lookup of a derived dictionary
        self.each = False        # one element per iteration of the run `derived`
        self.images = None       # (run, value): the set of these values
        self.unreadable = False  # dictionary that must not be looked at
        self.key_at = None       # dictionary: function index -> key (created with the first iteration)
        self.only = None         # dictionary: which keys can be in it
        self.content = None      # list of scalars: its value as a term
        self.isdict = False
        self.ksort = "str"
        self.pos = None
        self.run = None
        self.perm = None         # list: (run, position in the run, its inverse) of which it is a permutation
        self.no = None
        self.got = []            # (key, value) / for dicts (key, value | ABSENT)
        self.facts = []          # callables (ctx, key, value): assumed for every element
        self.holder = None
        self.recipe = None


class Virt:
    """A bound method with a contract."""
    __slots__ = ("o", "name")

    def __init__(self, o, name):
        self.o = o
        self.name = name


class Lazy:
    """A field whose value is decided when it is first read."""
    __slots__ = ("make", "v", "done", "shared")

    def __init__(self, make, shared=False):
        self.make = make
        self.shared = shared     # several objects may hold it
        self.done = False
        self.v = None

    def get(self, it):
        if not self.done:
            self.v = self.make(it)
            self.done = True
        return self.v


class OpaqueResult:
    """The result of a recursive call inside the inductive step of a loop: arbitrary."""

    def __init__(self, why):
        self.why = why


class Seg:
    """A slice lo..hi of a symbolic list."""
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base = base
        self.lo = lo
        self.hi = hi


class LP:
    """List payload: items and symbolic slices."""

    def __init__(self, parts=None):
        self.parts = parts if parts is not None else []

    def plain(self):
        return not any(isinstance(x, Seg) for x in self.parts)


ABSENT = type("ABSENT", (), {"__repr__": lambda s: "ABSENT"})()
DELETED = type("DELETED", (), {})()


class DP:
    """Dict / set payload: an unknown base and written entries [key, value] in insertion order."""

    def __init__(self, base=None, isset=False):
        self.base = base
        self.entries = []
        self.over = []           # [key, value | DELETED] for keys that are in the base
        self.isset = isset


class Mark(int):
    """A moment inside the repetition of a loop body: the moment the repetition is about, and what the repetition had changed."""


class Frame:
    """What a repetition in progress has changed (as it was before), and the marks made in it."""
    __slots__ = ("before", "marks", "over", "n0")

    def __init__(self, over, n0):
        self.n0 = n0
        self.before = {}
        self.marks = []
        self.over = over


class DeadLP(LP):
    """A list that a loop accumulates, seen from a part of the iteration: it must not be read."""

    def __init__(self):
        pass

    @property
    def parts(self):
        raise Unsupported("the loop reads what it accumulates")

    @parts.setter
    def parts(self, v):
        raise Unsupported("the loop writes what an outer loop accumulates")


class DeadDP(DP):
    def __init__(self, isset):
        self.isset = isset
        self.base = None
        self.over = []

    @property
    def entries(self):
        raise Unsupported("the loop reads what it accumulates")

    @entries.setter
    def entries(self, v):
        raise Unsupported("the loop writes what an outer loop accumulates")


class TrackLP(LP):
    """The payload of a list that is only appended to: reading it is noticed."""

    def __init__(self):
        self.read = False
        self.raw = []

    @property
    def parts(self):
        self.read = True
        return self.raw

    @parts.setter
    def parts(self, v):
        self.read = True
        self.raw = v


class TrackDP(DP):
    """The payload of a dictionary or set that is only written: reading it is noticed."""

    def __init__(self, isset=False):
        self.read = False
        self.raw = []
        self.isset = isset
        self.base = None
        self.over = []

    @property
    def entries(self):
        self.read = True
        return self.raw

    @entries.setter
    def entries(self, v):
        self.read = True
        self.raw = v


class Opaque:
    """A container whose content is unknown (after a loop that was abstracted)."""


class ClassVal:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, ClassVal) and o.c is self.c

    def __hash__(self):
        return hash(id(self.c))

    def __repr__(self):
        return "<class %s>" % self.c.name


class FuncVal:
    __slots__ = ("f", "env", "defaults")

    def __init__(self, f, env=None, defaults=None):
        self.f = f
        self.env = env
        self.defaults = defaults


class Bound:
    __slots__ = ("s", "f")

    def __init__(self, s, f):
        self.s = s
        self.f = f


class BM:
    """A method of a builtin type bound to a value."""
    __slots__ = ("s", "name", "typ")

    def __init__(self, s, name, typ):
        self.s = s
        self.name = name
        self.typ = typ


class Ext:
    """A name from outside the program (builtin function or library)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<ext %s>" % self.name


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class SuperV:
    __slots__ = ("cls", "s")

    def __init__(self, cls, s):
        self.cls = cls
        self.s = s


class RangeV:
    __slots__ = ("a", "b", "step")

    def __init__(self, a, b, step):
        self.a = a
        self.b = b
        self.step = step


class GenV:
    """A lazy iterable (generator expression, map, filter, zip, ...)."""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class View:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class EnumVal:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value


class NotImpl:
    pass


NOTIMPL = NotImpl()


class PyExc(Exception):
    """An exception of the program under verification."""

    def __init__(self, cls, msg="", obj=None, where=None):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.obj = obj
        self.where = where


class ReturnS(Exception):
    def __init__(self, v):
        self.v = v


class BreakS(Exception):
    pass


class ContinueS(Exception):
    pass


class Env:
    __slots__ = ("v", "up", "func", "mod", "cls", "globals_")

    def __init__(self, up, func, mod, cls):
        self.v = {}
        self.up = up
        self.func = func
        self.mod = mod
        self.cls = cls
        self.globals_ = ()


UNKNOWN_LOCAL = type("UNKNOWN_LOCAL", (), {})()


class Interp:
    MAX_STEPS = 400000
    MAX_DEPTH = 150

    def __init__(self, prog, path, ctl, sidecar):
        self.docs = []
        self.prog = prog
        self.path = path
        self.ctl = ctl
        self.sidecar = sidecar
        self.nobj = 0
        self.clock = 0
        self.steps = 0
        self.depth = 0
        self.patched = {}       # names of modules that the lemma replaced
        self.statics = {}
        self.writes = {}         # obj id -> (obj, clock of last write)
        self.snaps = []
        self.objs = []
        self.hist = {}           # obj id -> what it held before a write that follows a mark
        self.last_mark = -1
        self.armed = set()
        self.excursion = 0       # a loop body is being run again
        self.xf = []
        self.epoch = None        # the mark whose state is in place
        self.functions = set()
        self.obligations = []
        self.frames = []
        self.line = None
        self.wlog = None         # set of objects written, when recording
        self.tlog = None         # touched (base, index) pairs, when recording
        self.rlog = None         # set of objects read, when recording
        self.quiet = 0           # obligations are not recorded (probe of a loop)
        self.bases = []
        self.building = 0
        self.stepping = []       # frames depth of loops whose generic iteration is being executed
        self.in_loop = 0

    # ------------------------------------------------------------ objects
    def new(self, cls, p=None):
        self.nobj += 1
        o = Obj(cls, self.nobj, p=p)
        self.clock += 1
        o.birth = self.clock
        self.objs.append(o)
        if p is not None and isinstance(p, (LP, DP)) and getattr(p, "base", None) is not None:
            p.base.holder = o
        return o

    def B(self, n):
        return self.prog.builtin_classes[n]

    def mklist(self, items):
        return self.new(self.B("list"), LP(list(items)))

    def mkdict(self, pairs=()):
        o = self.new(self.B("dict"), DP())
        for k, v in pairs:
            self.dict_set(o, k, v)
        return o

    def mkset(self, items=()):
        o = self.new(self.B("set"), DP(isset=True))
        for x in items:
            self.dict_set(o, x, True)
        return o

    def mark(self):
        """The present moment, to evaluate something later as it is now."""
        self.last_mark = self.clock
        self.clock += 1
        t = self.last_mark if self.epoch is None else self.epoch
        if not self.excursion or not self.xf:
            return t
        fr = self.xf[-1]
        m = Mark(t)
        m.n0 = self.nobj
        m.over = {i: self.snap(o) for i, o in [(i, x[0]) for i, x in fr.over.items()] + [(i, x[0]) for i, x in fr.before.items()]}
        fr.marks.append(m)
        return m

    def snap(self, o):
        p = o.p
        if type(p) is TrackLP:
            p = DeadLP()
        elif type(p) is TrackDP:
            p = DeadDP(p.isset)
        else:
            p = self.image(p)
        return o, o.cls, dict(o.f), p

    def dirty(self, o):
        """o is about to be changed by the repetition in progress."""
        fr = self.xf[-1]
        if o.id <= fr.n0 and o.id not in fr.before:
            fr.before[o.id] = (o, o.cls, dict(o.f), self.image(o.p))
        for m in fr.marks:
            if o.id <= m.n0 and o.id not in m.over:
                m.over[o.id] = self.snap(o)

    def touch(self, o):
        """Called before o is changed: keeps what it held at the last mark."""
        self.armed.add(o.id)
        w = self.writes.get(o.id)
        if self.excursion and self.xf:
            self.dirty(o)
        if not self.excursion and (w is None or w[1] <= self.last_mark) and self.is_old(o, self.last_mark):
            self.hist.setdefault(o.id, []).append((self.clock, o, o.cls, dict(o.f), self.image(o.p)))

    def image(self, p):
        if type(p) is LP:
            return LP(list(p.parts))
        if type(p) is DP:
            d = DP(p.base, p.isset)
            d.entries = [list(e) for e in p.entries]
            d.over = [list(e) for e in p.over]
            return d
        return p

    def at_time(self, t, f):
        """f() on the objects as they were at mark t."""
        put = []

        def place(o, cls, fs, p):
            put.append((o, o.cls, o.f, o.p))
            self.fill(o, cls, dict(fs))
            o.p = self.image(p)
        over = getattr(t, "over", {})
        if self.xf:
            for fr in reversed(self.xf):
                for x in fr.before.values():
                    place(*x)
        for hs in self.hist.values():
            for c, o, cls, fs, p in hs:
                if c >= t:
                    place(o, cls, fs, p)
                    break
        for x in over.values():
            place(*x)
        keep = self.epoch
        if put:
            self.epoch = t
        self.xf.append(Frame(over, self.nobj))
        try:
            return f()
        finally:
            self.xf.pop()
            self.epoch = keep
            for o, cls, fs, p in reversed(put):
                self.fill(o, cls, fs)
                o.p = p

    def fill(self, o, cls, fs):
        """Gives o the fields fs; cls is the class that was known when they were read."""
        if cls is None and o.cls is not None:
            d = dict(o.made)
            d.update(fs)
            fs = d
        o.f = fs

    def frozen(self, f):
        t = self.mark()
        return lambda *a: self.at_time(t, lambda: f(*a))

    def frozen_env(self, env):
        if env is None:
            return None
        e = Env(self.frozen_env(env.up), env.func, env.mod, env.cls)
        e.v = dict(env.v)
        e.globals_ = env.globals_
        return e

    def frozen_func(self, f):
        if isinstance(f, FuncVal) and f.env is not None:
            return FuncVal(f.f, self.frozen_env(f.env), f.defaults)
        return f

    def wrote(self, o):
        if o.id not in self.armed:
            raise Unsupported("engine: write without touch")
        self.armed.discard(o.id)
        self.clock += 1
        self.writes[o.id] = (o, self.clock)
        if self.wlog is not None:
            self.wlog.add(o)

    def exc(self, name, msg=""):
        return PyExc(self.prog.exc[name], msg, where=self.where())

    def where(self):
        return "%s:%s" % (self.frames[-1] if self.frames else "?", self.line)

    def oblige(self, t, label):
        """One obligation of the lemma on this path."""
        if self.quiet:
            return
        st, model = self.path.valid(t)
        self.obligations.append(dict(label=label, status=st, model=model, line=self.line, lossy=self.path.lossy))
        if st == "discharged":
            if type(t) is not bool:
                self.path.assume(t)
            elif not t:
                raise Infeasible()
        else:
            raise PathEnd()

    def is_old(self, o, clock):
        """Whether o existed at that time (unknown parts of older objects did)."""
        while o is not None:
            if o.birth <= clock:
                return True
            o = o.owner
        return False

    def tidy(self, o):
        """Drops empty segments."""
        out = []
        for x in o.p.parts:
            if isinstance(x, Seg):
                d = z3.simplify(x.hi - x.lo)
                if z3.is_int_value(d) and d.as_long() <= 0:
                    continue
            out.append(x)
        o.p.parts = out

    def number_base(self, b):
        b.no = len(self.bases)
        self.bases.append(b)
        return b

    def base_no(self, b):
        if b.no is None:
            self.number_base(b)
        return b.no

    def base_by(self, n):
        return self.bases[n] if n < len(self.bases) else None

    def under(self, f):
        """Makes an unknown part of an input (it is as old as the input)."""
        n0 = len(self.objs)
        c0 = self.clock
        v = f()
        for o in self.objs[n0:]:
            o.birth = 0
            self.writes.pop(o.id, None)
        return v

    def made(self, base, f):
        """Runs f and puts what it creates under the holder of base."""
        n0 = len(self.objs)
        v = f()
        for o in self.objs[n0:]:
            if o.owner is None and o is not base.holder:
                o.owner = base.holder
            self.writes.pop(o.id, None)
        return v

    def lossy(self, why):
        self.path.lossy = self.path.lossy or why

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step limit")
        self.line = st.lineno
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            self.assign(t, self.augop(st.op, cur, self.ev(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = mangle(env.cls, t.attr)
            self.setattr(o, n, self.augop(st.op, self.getattr(o, n), self.ev(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.setitem(o, i, self.augop(st.op, self.getitem(o, i), self.ev(st.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, Obj) and isinstance(a.p, LP):
            self.bi.list_extend(a, b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, Obj) and isinstance(a.p, DP):
            for x in self.iterate(b):
                self.dict_set(a, x, True)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals_:
                raise Unsupported("global/nonlocal assignment")
            e.v[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), mangle(env.cls, t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env) if not isinstance(t.slice, ast.Slice) else self.slice_of(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Obj) and isinstance(v.p, LP) and not v.p.plain() and not any(isinstance(x, ast.Starred) for x in t.elts):
                if not self.path.decide(term(self.length(v)) == len(t.elts)):
                    raise self.exc("ValueError", "unpack")
                vs = [self.getitem(v, i) for i in range(len(t.elts))]
            else:
                vs = list(self.iterate(v))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(t.elts) - 1 - i
                if len(vs) < len(t.elts) - 1:
                    raise self.exc("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, self.mklist(vs[i:len(vs) - k]), env)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, env)
                return
            if len(vs) != len(t.elts):
                raise self.exc("ValueError", "unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def s_Return(self, st, env):
        raise ReturnS(None if st.value is None else self.ev(st.value, env))

    def s_If(self, st, env):
        self.block(st.body if self.truth(self.ev(st.test, env)) else st.orelse, env)

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        if self.is_symbolic_iter(it):
            self.loops.for_symbolic(st, it, env)
            return
        for v in self.iterate(it):
            self.assign(st.target, v, env)
            try:
                self.block(st.body, env)
            except BreakS:
                return
            except ContinueS:
                pass
        self.block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while self.truth(self.ev(st.test, env)):
            n += 1
            if n > 200:
                raise Unsupported("loop bound")
            try:
                self.block(st.body, env)
            except BreakS:
                return
            except ContinueS:
                pass
        self.block(st.orelse, env)

    def s_Break(self, st, env):
        raise BreakS()

    def s_Continue(self, st, env):
        raise ContinueS()

    def s_Raise(self, st, env):
        if st.exc is None:
            raise self.current_exc[-1]
        v = self.ev(st.exc, env)
        if isinstance(v, ClassVal):
            raise PyExc(v.c, where=self.where())
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, Obj):
            raise PyExc(v.cls, obj=v, where=self.where())
        raise Unsupported("raise")

    current_exc = []

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                        if h.name:
                            env.v[h.name] = e
                        self.current_exc.append(e)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.current_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (Infeasible, PathEnd, Unsupported):
            raise
        except BaseException:
            if st.finalbody:
                self.block(st.finalbody, env)
            raise
        else:
            self.block(st.finalbody, env)

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, ClassVal):
            return e.cls.is_sub(t.c)
        if isinstance(t, Ext):
            return e.cls.name == t.name.split(".")[-1]
        raise Unsupported("except " + repr(t))

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.touch(o)
                o.f.pop(mangle(env.cls, t.attr))
                self.wrote(o)
            else:
                raise Unsupported("del")

    def s_FunctionDef(self, st, env):
        f = FuncInfo(st.name, st, env.mod, env.cls, "func")
        env.v[st.name] = self.closure(f, st.args, env)

    def closure(self, f, args, env):
        ds = [self.ev(d, env) for d in args.defaults]
        kds = [None if d is None else self.ev(d, env) for d in args.kw_defaults]
        return FuncVal(f, env, (ds, kds))

    def s_With(self, st, env):
        mgrs = []
        for it in st.items:
            m = self.ev(it.context_expr, env)
            v = self.bi.enter(m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(st.body, env)
        except (Infeasible, PathEnd, Unsupported):
            raise
        except PyExc as e:
            for m in reversed(mgrs):
                if self.bi.leave(m, e):
                    if len(mgrs) > 1:
                        raise Unsupported("with")
                    return
            raise
        except BaseException:
            for m in reversed(mgrs):
                self.bi.leave(m)
            raise
        for m in reversed(mgrs):
            self.bi.leave(m)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise self.exc("AssertionError")

    def s_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.v[a.asname] = Mod(a.name)
            else:
                env.v[a.name.split(".")[0]] = Mod(a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            sub = self.prog.load(st.module)
            if sub is not None:
                self.prog.link()
                env.v[a.asname or a.name] = self.static_value(self.prog.lookup(sub, a.name), sub)
            else:
                env.v[a.asname or a.name] = self.extern(st.module, a.name)

    def s_Global(self, st, env):
        raise Unsupported("global")

    def s_Nonlocal(self, st, env):
        raise Unsupported("nonlocal")

    # ------------------------------------------------------------ names
    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.v:
                v = e.v[n]
                if v is UNKNOWN_LOCAL:
                    raise Unsupported("value of %s after an abstracted loop" % n)
                return v
            e = e.up
        return self.global_name(n, env.mod)

    def global_name(self, n, mod):
        if mod is not None:
            if self.patched and mod.name + "." + n in self.patched:
                return self.patched[mod.name + "." + n]
            if n in mod.names:
                b = self.prog.lookup(mod, n)
                if b is not None:
                    return self.static_value(b, mod)
        v = self.bi.builtin(n)
        if v is not None:
            return v
        b = self.prog.lookup(mod, n) if mod is not None else None
        if b is not None:
            return self.static_value(b, mod)
        raise self.exc("NameError", n)

    def static_value(self, b, mod):
        if isinstance(b, ClassInfo):
            return ClassVal(b)
        if isinstance(b, FuncInfo):
            return FuncVal(b)
        if isinstance(b, str):
            return Mod(b)
        if isinstance(b, tuple):
            if b[0] == "extern":
                return self.extern(b[1], b[2])
            if b[0] == "const":
                key = ("const", b[1].name, b[3])
                if key not in self.statics:
                    env = Env(None, None, b[1], None)
                    self.statics[key] = self.ev(b[2], env)
                return self.statics[key]
        raise Unsupported("name binding %r" % (b,))

    def extern(self, mod, name):
        return self.bi.extern(mod, name)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step limit")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, (str, int, float, bool, type(None), bytes)):
            return e.value
        if e.value is Ellipsis:
            return None
        raise Unsupported("constant")

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), mangle(env.cls, e.attr))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            return self.getslice(o, self.slice_of(e.slice, env))
        return self.getitem(o, self.ev(e.slice, env))

    def slice_of(self, s, env):
        return ("slice",) + tuple(None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.mklist(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.mkset(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        o = self.new(self.B("dict"), DP())
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.pairs(self.ev(v, env)):
                    self.dict_set(o, kk, vv)
            else:
                self.dict_set(o, self.ev(k, env), self.ev(v, env))
        return o

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return v if not isinstance(v, Sym) or v.k != "bool" else False
            elif t:
                return v if not isinstance(v, Sym) or v.k != "bool" else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym) and v.k == "bool":
                return boolv(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym):
                return back("int" if v.k == "bool" else v.k, -self.num(v))
            if isinstance(v, TD):
                return TD(-v.us)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, env)
            res = self.compare(op, a, b)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            a = b
        return res

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        f = FuncInfo("<lambda>", e, env.mod, env.cls, "func")
        return self.closure(f, e.args, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_JoinedStr(self, e, env):
        out = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                out = self.concat(out, x.value)
            else:
                v = self.ev(x.value, env)
                spec = ""
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, env)
                if x.conversion == 114:
                    v = self.bi.repr_(v)
                elif x.conversion == 115:
                    v = self.bi.str_(v)
                out = self.concat(out, self.bi.format_(v, spec))
        return out

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_GeneratorExp(self, e, env):
        first = self.ev(e.generators[0].iter, env)
        if self.is_symbolic_iter(first):
            return self.loops.gen_symbolic(e, first, env)
        return GenV(self.comp(e.generators, env, lambda en: self.ev(e.elt, en), first))

    def e_ListComp(self, e, env):
        r = self.loops.comp_symbolic(e, env)
        if r is not None:
            return r
        return self.mklist(self.comp(e.generators, env, lambda en: self.ev(e.elt, en)))

    def e_SetComp(self, e, env):
        first = self.ev(e.generators[0].iter, env)
        if self.is_symbolic_iter(first):
            return self.loops.lazy_comp(e, first, env, self.mkset, "set")
        return self.mkset(list(self.comp(e.generators, env, lambda en: self.ev(e.elt, en), first)))

    def e_DictComp(self, e, env):
        return self.mkdict(list(self.comp(e.generators, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))))

    def comp(self, gens, env, elt, first=ABSENT):
        inner = Env(env, env.func, env.mod, env.cls)
        if first is ABSENT:
            first = self.ev(gens[0].iter, env)

        def go(i, it):
            g = gens[i]
            for v in self.iterate(it):
                self.assign(g.target, v, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from go(i + 1, self.ev(gens[i + 1].iter, inner))
                    else:
                        yield elt(inner)
        return go(0, first)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = self.super_self(env)
            return SuperV(self.super_cls(env), s)
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                for kk, vv in self.pairs(v):
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        line = self.line
        r = self.call(f, args, kw, env)
        self.line = line
        return r

    def super_self(self, env):
        e = env
        while e is not None:
            if e.func is not None and e.func.cls is not None and e.func.node.args.args:
                n = e.func.node.args.args[0].arg
                if n in e.v:
                    return e.v[n]
            e = e.up
        raise Unsupported("super() outside a method")

    def super_cls(self, env):
        return env.cls

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, env=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call_func(f.f, [f.s] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if type(f) is Virt:
            return self.sidecar.call(self, f, args, kw)
        if isinstance(f, BM):
            return self.bi.method(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f.c, args, kw)
        if isinstance(f, Ext):
            return self.bi.call_ext(f, args, kw, env)
        if isinstance(f, Obj):
            m = self.find(f, "__call__")
            if m:
                return self.call_func(FuncVal(m), [f] + list(args), kw)
        if f is None:
            raise self.exc("TypeError", "None is not callable")
        raise Unsupported("call of %r" % (f,))

    def call_func(self, fv, args, kw):
        f = fv if isinstance(fv, FuncInfo) else fv.f
        env_up = None if isinstance(fv, FuncInfo) else fv.env
        defaults = None if isinstance(fv, FuncInfo) else fv.defaults
        if f.kind.startswith("unsupported"):
            raise Unsupported("decorator on " + f.qual)
        r = self.sidecar.instead(self, f, args)
        if r is not None:
            return r[0]
        if self.stepping and self.recursive(f):
            return OpaqueResult(f.qual)
        if self.depth > self.MAX_DEPTH:
            raise Unsupported("recursion depth")
        env = Env(env_up, f, f.module, f.cls)
        self.bind(f, env, list(args), dict(kw), defaults)
        if f.module is not None and f.module.name.startswith("opyenxes"):
            self.functions.add(f.qual)
        node = f.node
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        if node not in self.ctl.plain:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                raise Unsupported("generator function " + f.name)
            self.ctl.plain.add(node)
        self.depth += 1
        self.frames.append(f.qual)
        line = self.line
        try:
            self.block(node.body, env)
            return None
        except ReturnS as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()
            self.line = line

    def recursive(self, f):
        """A call, inside the generic iteration of a loop, of the function that runs that loop (directly or not)."""
        q = f.qual
        if not q.startswith("opyenxes"):
            return False
        return any(q == self.frames[d - 1] for d in self.stepping if d)

    def bind(self, f, env, args, kw, defaults):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        if len(args) > len(names) and a.vararg is None:
            raise self.exc("TypeError", f.name + "() takes fewer arguments")
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw:
                    raise self.exc("TypeError", "multiple values for " + n)
                env.v[n] = args[i]
            elif n in kw:
                env.v[n] = kw.pop(n)
            elif i >= len(names) - nd:
                j = i - (len(names) - nd)
                env.v[n] = defaults[0][j] if defaults is not None else self.default(f, j, a.defaults[j])
            else:
                raise self.exc("TypeError", "%s() missing argument %s" % (f.name, n))
        if a.vararg is not None:
            env.v[a.vararg.arg] = tuple(args[len(names):])
        for j, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                env.v[x.arg] = kw.pop(x.arg)
            elif a.kw_defaults[j] is not None:
                env.v[x.arg] = defaults[1][j] if defaults is not None else self.default(f, "k%d" % j, a.kw_defaults[j])
            else:
                raise self.exc("TypeError", "missing " + x.arg)
        if a.kwarg is not None:
            env.v[a.kwarg.arg] = self.mkdict(kw.items())
        elif kw:
            raise self.exc("TypeError", "%s() got an unexpected keyword argument" % f.name)

    def default(self, f, j, expr):
        """Default values are evaluated once per function (and shared, as in Python)."""
        key = ("default", id(f.node), j)
        if key not in self.statics:
            self.statics[key] = self.ev(expr, Env(None, None, f.module, f.cls))
        return self.statics[key]

    def instantiate(self, c, args, kw, meta=True):
        if c.builtin:
            return self.bi.construct(c, args, kw)
        if c.is_enum:
            raise Unsupported("enum call")
        if meta:
            m = self.metaclass(c)
            if m is not None:
                f = m.find("__call__")
                if f is not None:
                    return self.call_func(f, [ClassVal(c)] + list(args), kw)
        for k in c.mro():
            if k.builtin == "exception":
                e = PyExc(c, where=self.where())
                return e
        o = self.new(c)
        bb = c.base_builtin()
        if bb == "list":
            o.p = LP()
        elif bb == "dict":
            o.p = DP()
        elif bb == "set":
            o.p = DP(isset=True)
        elif bb is not None:
            raise Unsupported("subclass of " + bb)
        new = c.find("__new__")
        if new is not None:
            raise Unsupported("__new__")
        init = c.find("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif bb:
            self.bi.init_payload(o, args, kw)
        elif args or kw:
            raise self.exc("TypeError", c.name + "() takes no arguments")
        return o

    def metaclass(self, c):
        for k in c.mro():
            if k.metaclass is not None:
                r = self.prog.static(k.module, k.metaclass)
                return r if isinstance(r, ClassInfo) else None
        return None

    # ------------------------------------------------------------ classes of objects
    def resolve(self, o):
        """Decides the class of an input object."""
        if o.cls is None:
            i = self.path.pick(len(o.cands))
            self.settle(o, [o.cands[i]])
        return o.cls

    def settle(self, o, cands):
        self.settle1(o, cands)
        for c in o.twins:
            if c.cls is None and len(c.cands) != len(cands):
                self.settle(c, cands)
        if o.origin is not None and o.origin[0].cls is None and len(o.origin[0].cands) != len(cands):
            self.settle(o.origin[0], cands)

    def settle1(self, o, cands):
        o.cands = cands
        if len(cands) == 1:
            o.cls = cands[0]
            keep = dict(o.f)
            o.made = dict(o.variants[o.cls])
            o.f = dict(o.made)
            o.f.update(keep)
            o.variants = None

    def classes(self, o):
        return [o.cls] if o.cls is not None else o.cands

    def find(self, o, name):
        """The method of an object, resolving its class only when the candidates differ."""
        fs = {id(x): x for x in (c.find(name) for c in self.classes(o))}
        if len(fs) == 1:
            return list(fs.values())[0]
        self.resolve(o)
        return o.cls.find(name)

    def isinst(self, v, c):
        if type(v) is Lazy:
            v = v.get(self)
        if isinstance(c, tuple):
            return any(self.isinst(v, x) for x in c)
        if isinstance(c, Obj) and isinstance(c.p, LP):
            raise self.exc("TypeError", "isinstance arg")
        if isinstance(c, Ext):
            return self.bi.isinst_ext(v, c)
        if not isinstance(c, ClassVal):
            raise Unsupported("isinstance(%r)" % (c,))
        k = c.c
        if isinstance(v, Obj):
            if v.cls is not None:
                return v.cls.is_sub(k)
            yes = [x for x in v.cands if x.is_sub(k)]
            if len(yes) == len(v.cands):
                return True
            if not yes:
                return False
            if self.path.pick(2) == 0:
                self.settle(v, yes)
                return True
            self.settle(v, [x for x in v.cands if not x.is_sub(k)])
            return False
        if k.name == "object":
            return True
        t = self.type_name(v)
        if t is None:
            raise Unsupported("type of %r" % (v,))
        if k.builtin and k.builtin != "exception":
            return t == k.name or (t == "bool" and k.name == "int")
        if isinstance(v, EnumVal):
            return v.cls.is_sub(k)
        return False

    def type_name(self, v):
        k = kind(v)
        m = {"None": "NoneType", "bool": "bool", "int": "int", "float": "float", "str": "str", "tuple": "tuple", "datetime": "datetime",
             "timedelta": "timedelta", "uuid": "UUID", "bytes": "bytes", "FuncVal": "function", "Bound": "function", "ClassVal": "type",
             "BM": "builtin", "Ext": "ext", "RangeV": "range", "GenV": "generator", "View": "view", "Mod": "module", "EnumVal": "Enum"}
        if k in m:
            return m[k]
        return self.bi.type_name(v)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if type(o) is Lazy:
            o = o.get(self)
        if isinstance(o, Obj):
            return self.getattr_obj(o, n)
        if isinstance(o, SuperV):
            return self.getattr_super(o, n)
        if isinstance(o, ClassVal):
            return self.getattr_class(o, n)
        if isinstance(o, Mod):
            if o.name + "." + n in self.patched:
                return self.patched[o.name + "." + n]
            m = self.prog.load(o.name)
            if m is not None:
                self.prog.link()
                b = self.prog.lookup(m, n)
                if b is None:
                    sub = o.name + "." + n
                    if self.prog.path_of(sub):
                        return Mod(sub)
                    raise self.exc("AttributeError", n)
                return self.static_value(b, m)
            return self.extern(o.name, n)
        if isinstance(o, EnumVal):
            if n == "name":
                return o.name
            if n == "value":
                return o.value
        if o is None:
            raise self.exc("AttributeError", "'NoneType' object has no attribute '%s'" % n)
        if isinstance(o, PyExc) and n == "args":
            return (o.msg,)
        return self.bi.getattr(o, n)

    def getattr_obj(self, o, n):
        if self.rlog is not None:
            self.rlog.add(o)
        if n in o.f:
            v = o.f[n]
            if type(v) is Lazy:
                v = v.get(self)
            return v
        if o.var0 is not None:
            v = self.sidecar.virtual(self, o, n)
            if v is not None:
                return v
        if o.cls is None:
            fs = [o.variants.field(c, n) for c in o.cands]
            if all(has for has, v in fs) and all(v is fs[0][1] and v is not ABSENT for has, v in fs):
                v = fs[0][1]
                return v.get(self) if type(v) is Lazy else v
            ms = {id(c.find(n)) for c in o.cands}
            if not (not any(has for has, v in fs) and len(ms) == 1 and o.cands[0].find(n)):
                self.resolve(o)
                return self.getattr_obj(o, n)
            m = o.cands[0].find(n)
        else:
            m = o.cls.find(n)
        if m is not None:
            if m.kind == "static":
                return FuncVal(m)
            if m.kind == "class":
                return Bound(ClassVal(self.resolve(o)), FuncVal(m))
            if m.kind == "property":
                return self.call_func(m, [o], {})
            return Bound(o, FuncVal(m))
        c = self.resolve(o)
        k = c.find_attr(n)
        if k is not None:
            return self.class_attr(k, n)
        if n == "__class__":
            return ClassVal(c)
        if n == "__dict__":
            raise Unsupported("__dict__")
        if o.p is not None:
            r = self.bi.payload_attr(o, n)
            if r is not None:
                return r
        r = self.bi.object_attr(o, n)
        if r is not None:
            return r
        raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (c.name, n))

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.k == b.k and a.t.eq(b.t)
        if isinstance(a, (str, int, float, bool)) and type(a) is type(b):
            return a == b
        return False

    def class_attr(self, k, n):
        key = (id(k), n)
        if key in self.statics:
            return self.statics[key]
        if n in k.nested:
            return ClassVal(k.nested[n])
        env = Env(None, None, k.module, k)
        for st in k.node.body:       # class bodies see their earlier names
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if mangle(k, t.id) == n:
                            break
                        env.v[t.id] = _LazyAttr(self, k, mangle(k, t.id))
        for a in list(env.v):
            env.v[a] = UNKNOWN_LOCAL if not _names(k.attrs[n], a) else self.class_attr(k, mangle(k, a))
        v = self.ev(k.attrs[n], env)
        if k.is_enum:
            v = EnumVal(k, n, v)
        self.statics[key] = v
        return v

    def getattr_class(self, cv, n):
        c = cv.c
        if n == "__name__":
            return c.name
        for k in c.mro():
            if (id(k), n) in self.statics:
                return self.statics[(id(k), n)]
            if n in k.attrs or n in k.nested:
                return self.class_attr(k, n)
            if n in k.methods:
                m = k.methods[n]
                if m.kind == "class":
                    return Bound(cv, FuncVal(m))
                return FuncVal(m)
        m = self.metaclass(c)
        if m is not None:
            f = m.find(n)
            if f is not None:
                return Bound(cv, FuncVal(f))
        if c.builtin or c.base_builtin():
            return self.bi.class_method(c, n)
        r = self.bi.object_class_attr(c, n)
        if r is not None:
            return r
        raise self.exc("AttributeError", "type '%s' has no attribute '%s'" % (c.name, n))

    def getattr_super(self, s, n):
        o = s.s
        if isinstance(o, ClassVal):      # metaclass super().__call__ / classmethod
            if n == "__call__":
                return Ext("type.__call__:" + str(o.c.cid))
            c = o.c
            mro = c.mro()
            i = mro.index(s.cls) if s.cls in mro else -1
            for k in mro[i + 1:]:
                if n in k.methods:
                    m = k.methods[n]
                    return Bound(o, FuncVal(m)) if m.kind == "class" else FuncVal(m)
            raise Unsupported("super on a class")
        cs = self.classes(o)
        found = None
        for c in cs:
            mro = c.mro()
            i = mro.index(s.cls)
            m = None
            for k in mro[i + 1:]:
                if n in k.methods:
                    m = k.methods[n]
                    break
                if k.builtin in ("list", "dict", "set") and self.bi.has_method(k.builtin, n):
                    m = k
                    break
            if found is None:
                found = m or "object"
            elif found is not (m or "object"):
                self.resolve(o)
                return self.getattr_super(s, n)
        if isinstance(found, FuncInfo):
            if found.kind == "static":
                return FuncVal(found)
            if found.kind == "property":
                return self.call_func(found, [o], {})
            return Bound(o, FuncVal(found))
        if isinstance(found, ClassInfo):
            return BM(o, n, found.builtin)
        r = self.bi.object_attr(o, n)
        if r is None:
            raise self.exc("AttributeError", n)
        return r

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            for c in self.classes(o):
                m = c.find(n)
                if m is not None and m.kind == "property":
                    raise Unsupported("property assignment")
            if n in o.f and self.same(o.f[n], v) and not isinstance(v, Obj):
                return
            if o.cls is None:
                self.resolve(o)
            if n in o.f and o.f[n] is v:
                return
            self.touch(o)
            o.f[n] = v
            self.wrote(o)
            return
        if isinstance(o, ClassVal):
            self.statics[(id(o.c), n)] = v
            return
        if o is None:
            raise self.exc("AttributeError", "None has no attribute " + n)
        if isinstance(o, Mod):
            self.patched[o.name + "." + n] = v
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------ truth, equality, order
    def truth(self, v):
        return self.path.decide(self.truth_term(v))

    def truth_term(self, v):
        if type(v) is Lazy:
            v = v.get(self)
        if v is None:
            return False
        if isinstance(v, Sym):
            if v.k == "bool":
                return v.t
            if v.k == "str":
                return v.t != z3.StringVal("")
            if v.k in ("int", "float"):
                return v.t != 0
            return True
        if isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, Obj):
            m = self.find(v, "__bool__")
            if m is not None:
                return self.truth(self.call_func(m, [v], {}))
            m = self.find(v, "__len__")
            if m is not None:
                return self.truth(self.call_func(m, [v], {}))
            if v.p is not None:
                return self.truth_term(self.length(v))
            return True
        if isinstance(v, TD):
            return v.us != 0
        if isinstance(v, View):
            return self.truth_term(self.length(v.d))
        if isinstance(v, RangeV):
            return self.truth_term(self.length(v))
        t = self.bi.truth(v)
        if t is not None:
            return t
        return True

    def is_(self, a, b):
        if type(a) is Lazy:
            a = a.get(self)
        if type(b) is Lazy:
            b = b.get(self)
        if a is None or b is None:
            return a is b
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return a.c is b.c
        if isinstance(a, EnumVal) and isinstance(b, EnumVal):
            return a.cls is b.cls and a.name == b.name
        if kind(a) != kind(b):
            return False
        if kind(a) == "bool":
            return boolv(term(a) == term(b))
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t):
            return True
        if isinstance(a, DT):
            return a is b or boolv(z3.And(z3.BoolVal(a.inst is b.inst)))
        if kind(a) in ("int", "str", "float", "uuid"):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                self.lossy("identity of equal scalars")
                return boolv(term(a) == term(b))
            self.lossy("identity of equal scalars")
            same = self.path.fresh("bool", "same")
            self.path.assume(z3.Implies(same.t, term(a) == term(b)))
            return same
        if isinstance(a, Ext) or isinstance(a, FuncVal):
            return a == b if isinstance(a, Ext) else (isinstance(b, FuncVal) and a.f is b.f and a.env is b.env)
        return a is b

    NUM = ("bool", "int", "float")

    def num(self, v):
        if kind(v) == "bool":
            if isinstance(v, Sym):
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return z3.IntVal(int(v))
        return term(v)

    def num2(self, a, b):
        ta, tb = self.num(a), self.num(b)
        if ta.sort() != tb.sort():
            if ta.sort() == INT:
                ta = z3.ToReal(ta)
            if tb.sort() == INT:
                tb = z3.ToReal(tb)
        return ta, tb

    def eq(self, a, b):
        """a == b as a value (bool or symbolic bool)."""
        if type(a) is Lazy:
            a = a.get(self)
        if type(b) is Lazy:
            b = b.get(self)
        ka, kb = kind(a), kind(b)
        if ka in self.NUM and kb in self.NUM:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if ka == "bool" and kb == "bool":
                return boolv(term(a) == term(b))
            ta, tb = self.num2(a, b)
            return boolv(ta == tb)
        if ka == kb == "str":
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            r = self.bi.str_eq(a, b)
            return boolv(self.path.str_eq(a, b)) if r is None else r
        if ka == kb == "uuid":
            return boolv(a.t == b.t)
        if ka == kb == "datetime":
            if (a.off is None) != (b.off is None):
                return False
            return boolv(a.inst == b.inst)
        if ka == kb == "timedelta":
            return boolv(a.us == b.us)
        if ka == kb == "tuple":
            if len(a) != len(b):
                return False
            return self.all_eq(zip(a, b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.eq_obj(a, b)
        if ka == kb == "ClassVal":
            return a.c is b.c
        if ka == "EnumVal" or kb == "EnumVal":
            return ka == kb and a.cls is b.cls and a.name == b.name
        r = self.bi.eq(a, b)
        if r is not None:
            return r
        if ka != kb:
            return False
        return self.is_(a, b)

    def all_eq(self, pairs):
        acc = []
        for x, y in pairs:
            if x is y:
                continue
            r = self.eq(x, y)
            if isinstance(r, Sym):
                acc.append(r.t)
            elif not self.truth(r):
                return False
        return boolv(z3.And(*acc)) if acc else True

    def eq_obj(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = self.find(x, "__eq__")
                if m is not None:
                    r = self.call_func(m, [x, y], {})
                    if r is not NOTIMPL:
                        return r
                elif x.p is not None:
                    if not isinstance(y, Obj) or y.p is None:
                        continue
                    return self.eq_payload(x, y)
        return a is b

    def eq_payload(self, x, y):
        if x is y:
            return True
        if isinstance(x.p, LP) and isinstance(y.p, LP):
            if x.p.plain() and y.p.plain():
                if len(x.p.parts) != len(y.p.parts):
                    return False
                return self.all_eq(zip(x.p.parts, y.p.parts))
            return self.loops.eq_lists(x, y)
        if isinstance(x.p, DP) and isinstance(y.p, DP) and x.p.isset == y.p.isset:
            if x.p.base is None and y.p.base is None:
                if len(x.p.entries) != len(y.p.entries):
                    return False
                for k, v in x.p.entries:
                    w = self.dict_find(y, k)
                    if w is ABSENT or not (v is w or self.truth(self.eq(v, w))):
                        return False
                return True
            raise Unsupported("equality of symbolic dictionaries")
        return False

    def ne(self, a, b):
        if isinstance(a, Obj):
            m = self.find(a, "__ne__")
            if m is not None:
                return self.call_func(m, [a, b], {})
        r = self.eq(a, b)
        return self.not_(r)

    def not_(self, r):
        if isinstance(r, Sym) and r.k == "bool":
            return boolv(z3.Not(r.t))
        return not self.truth(r)

    OPN = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
    REFL = {"__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}

    def compare(self, op, a, b):
        if type(a) is Lazy:
            a = a.get(self)
        if type(b) is Lazy:
            b = b.get(self)
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return self.not_(self.is_(a, b))
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return self.ne(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return self.not_(self.contains(b, a))
        return self.order(self.OPN[t], a, b)

    def order(self, n, a, b):
        ka, kb = kind(a), kind(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y, nn in ((a, b, n), (b, a, self.REFL[n])):
                if isinstance(x, Obj):
                    m = self.find(x, nn)
                    if m is not None:
                        r = self.call_func(m, [x, y], {})
                        if r is not NOTIMPL:
                            return r
            if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.p, LP) and isinstance(b.p, LP):
                return self.order(n, tuple(self.iterate(a)), tuple(self.iterate(b)))
            raise self.exc("TypeError", "unorderable")
        if ka == kb == "str":
            if n in ("__gt__", "__le__"):
                lt = self.path.slt(b, a)
            else:
                lt = self.path.slt(a, b)
            return boolv(lt) if n in ("__lt__", "__gt__") else boolv(z3.Not(lt) if not isinstance(lt, bool) else not lt)
        if ka == kb == "tuple":
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.order(n, x, y)
            return {"__lt__": len(a) < len(b), "__le__": len(a) <= len(b), "__gt__": len(a) > len(b), "__ge__": len(a) >= len(b)}[n]
        if ka in self.NUM and kb in self.NUM:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {"__lt__": a < b, "__le__": a <= b, "__gt__": a > b, "__ge__": a >= b}[n]
            x, y = self.num2(a, b)
        elif ka == kb == "uuid":
            x, y = a.t, b.t
        elif ka == kb == "datetime":
            if (a.off is None) != (b.off is None):
                raise self.exc("TypeError", "can't compare offset-naive and offset-aware datetimes")
            x, y = a.inst, b.inst
        elif ka == kb == "timedelta":
            x, y = a.us, b.us
        else:
            r = self.bi.order(n, a, b)
            if r is not None:
                return r
            raise self.exc("TypeError", "unorderable %s and %s" % (ka, kb))
        return boolv({"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y}[n])

    # ------------------------------------------------------------ arithmetic
    def concat(self, a, b):
        if type(a) is str and type(b) is str:
            return a + b
        if kind(a) == "str" and kind(b) == "str":
            if type(a) is str and a == "":
                return b
            if type(b) is str and b == "":
                return a
            return back("str", z3.simplify(z3.Concat(term(a), term(b))))
        r = self.bi.concat(a, b)
        if r is not None:
            return r
        raise self.exc("TypeError", "can only concatenate str")

    def binop(self, op, a, b):
        ka, kb = kind(a), kind(b)
        t = type(op)
        if t is ast.Add and "str" in (ka, kb) or (t is ast.Add and (ka == "Rope" or kb == "Rope")):
            return self.concat(a, b)
        if ka in self.NUM and kb in self.NUM:
            return self.arith(t, a, b)
        if t is ast.Mod and ka == "str":
            return self.bi.percent(a, b)
        if t is ast.Mult and ka == "str" and type(b) is int:
            r = ""
            for _ in range(b):
                r = self.concat(r, a)
            return r
        if t is ast.Add and ka == kb == "tuple":
            return a + b
        if isinstance(a, Obj) and isinstance(a.p, LP) and t is ast.Add and isinstance(b, Obj) and isinstance(b.p, LP):
            return self.new(self.B("list"), LP(list(a.p.parts) + list(b.p.parts)))
        if isinstance(a, Obj) and isinstance(a.p, DP) and a.p.isset and t in (ast.BitOr, ast.Sub, ast.BitAnd):
            return self.bi.setop(t, a, b)
        if isinstance(a, Obj) and isinstance(a.p, LP) and t is ast.Mult and type(b) is int:
            return self.mklist(list(self.iterate(a)) * b)
        r = self.bi.binop(t, a, b)
        if r is not None:
            return r
        names = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__"}
        if isinstance(a, Obj) and t in names:
            m = self.find(a, names[t])
            if m is not None:
                return self.call_func(m, [a, b], {})
        if a is None or b is None or (ka != kb and not isinstance(a, Obj)):
            raise self.exc("TypeError", "unsupported operand")
        raise Unsupported("operator %s on %s, %s" % (t.__name__, ka, kb))

    def arith(self, t, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                if t is ast.Add:
                    return a + b
                if t is ast.Sub:
                    return a - b
                if t is ast.Mult:
                    return a * b
                if t is ast.Div:
                    return a / b
                if t is ast.FloorDiv:
                    return a // b
                if t is ast.Mod:
                    return a % b
                if t is ast.Pow:
                    return a ** b
                if t is ast.BitOr:
                    return a | b
                if t is ast.BitAnd:
                    return a & b
                if t is ast.BitXor:
                    return a ^ b
                if t is ast.LShift:
                    return a << b
                if t is ast.RShift:
                    return a >> b
            except ZeroDivisionError:
                raise self.exc("ZeroDivisionError", "division by zero")
            raise Unsupported("operator")
        if t in (ast.BitAnd, ast.BitOr) and kind(a) == kind(b) == "bool":
            return boolv((z3.And if t is ast.BitAnd else z3.Or)(term(a), term(b)))
        x, y = self.num2(a, b)
        isf = x.sort() == REAL
        if isf and t in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            self.ctl.assume("floating point arithmetic is treated as real arithmetic")
            self.lossy("floating point arithmetic")
        k = "float" if isf else "int"
        if t is ast.Add:
            return back(k, z3.simplify(x + y))
        if t is ast.Sub:
            return back(k, z3.simplify(x - y))
        if t is ast.Mult:
            return back(k, z3.simplify(x * y))
        if t in (ast.Div, ast.FloorDiv, ast.Mod):
            if self.path.decide(y == 0):
                raise self.exc("ZeroDivisionError", "division by zero")
            if t is ast.Div:
                self.ctl.assume("floating point arithmetic is treated as real arithmetic")
                self.lossy("floating point arithmetic")
                if not isf:
                    x, y = z3.ToReal(x), z3.ToReal(y)
                return Sym("float", x / y)
            if isf:
                raise Unsupported("float floor division")
            q = x / y       # z3: remainder is never negative
            if self.path.decide(y > 0):
                return back("int", z3.simplify(q if t is ast.FloorDiv else x % y))
            q = z3.If(x % y == 0, q, q - 1)      # y < 0: floor
            return back("int", z3.simplify(q if t is ast.FloorDiv else x - y * q))
        if t in (ast.BitXor, ast.BitOr, ast.BitAnd) and not isf:
            self.ctl.assume("bit operations on unknown integers are uninterpreted")
            self.lossy("bit operations")
            return Sym("int", uf("bit." + t.__name__, INT, INT, INT)(x, y))
        raise Unsupported("arithmetic " + t.__name__)

    # ------------------------------------------------------------ containers
    def length(self, v):
        if isinstance(v, Obj) and v.p is not None:
            if isinstance(v.p, LP):
                n, s = 0, None
                for x in v.p.parts:
                    if isinstance(x, Seg):
                        d = x.hi - x.lo
                        s = d if s is None else s + d
                    else:
                        n += 1
                return n if s is None else back("int", z3.simplify(s + n))
            if isinstance(v.p, DP):
                p = v.p
                if p.base is None:
                    return len(p.entries)
                # keys written over unknown ones: every written key is known to be outside the base, or in p.over
                dead = sum(1 for k, x in p.over if x is DELETED)
                self.base_len(p.base)
                return back("int", z3.simplify(p.base.n + (len(p.entries) - dead)))
            raise Unsupported("length of an abstracted container")
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, Sym) and v.k == "str":
            return Sym("int", z3.Length(v.t))
        if isinstance(v, View):
            return self.length(v.d)
        if isinstance(v, RangeV):
            if all(type(x) is int for x in (v.a, v.b, v.step)):
                return len(range(v.a, v.b, v.step))
            if type(v.step) is int and abs(v.step) == 1:
                d = (term(v.b) - term(v.a)) * v.step
                return back("int", z3.simplify(z3.If(d > 0, d, 0)))
        if isinstance(v, Obj):
            m = self.find(v, "__len__")
            if m is not None:
                return self.call_func(m, [v], {})
        r = self.bi.length(v)
        if r is not None:
            return r
        raise self.exc("TypeError", "object has no len()")

    def base_len(self, base):
        if base.unreadable:
            base.find()
        if base.n is None:
            base.n = self.path.fresh_term(INT, "len")
            self.path.assume(base.n >= sum(1 for k, v in base.got if v is not ABSENT))
        return base.n

    def key_eq(self, a, b):
        if a is b:
            return True
        ka, kb = kind(a), kind(b)
        if ka != kb and not isinstance(a, Obj) and not isinstance(b, Obj) and not (ka in self.NUM and kb in self.NUM):
            return False
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not None and b.cls is not None \
                and a.p is None and b.p is None and a.cls.find("__eq__") is None and b.cls.find("__eq__") is None:
            return False
        return self.truth(self.eq(a, b))

    def dict_find(self, o, k):
        """The value of key k, or ABSENT."""
        p = o.p
        if p.base is not None and p.base.unreadable:
            p.base.find()
        if self.rlog is not None:
            self.rlog.add(o)
        if isinstance(k, Obj):
            if k.p is not None and self.find(k, "__hash__") is None and not self.hashable_builtin(k):
                raise self.exc("TypeError", "unhashable type")
        for e in p.entries:
            if self.key_eq(e[0], k):
                return e[1]
        if p.base is None:
            return ABSENT
        for e in p.over:
            if self.key_eq(e[0], k):
                return ABSENT if e[1] is DELETED else e[1]
        return self.base_find(p.base, k)

    def hashable_builtin(self, k):
        return False

    def base_find(self, base, k):
        if base.find is not None:
            return base.find(self, k)
        for kk, v in base.got:
            if self.key_eq(kk, k):
                return v
        if base.only is not None and not base.only(self, k):
            base.got.append((k, ABSENT))
            return ABSENT
        if self.path.pick(2) == 1:
            base.got.append((k, ABSENT))
            return ABSENT
        return self.base_add(base, k)

    def base_add(self, base, k):
        """Key k is in the base and not looked up before."""
        v = self.made(base, lambda: base.make(self, k))
        base.got.append((k, v))
        if base.n is not None:
            self.path.assume(base.n >= sum(1 for _, x in base.got if x is not ABSENT))
        self.loops.present(base, k)
        for f in list(base.facts):
            f(self, k, v)
        return v

    def dict_set(self, o, k, v):
        p = o.p
        if not isinstance(p, DP):
            raise Unsupported("write to an abstracted container")
        if isinstance(k, Obj) and k.p is not None and self.find(k, "__hash__") is None:
            raise self.exc("TypeError", "unhashable type")
        ents = p.raw if type(p) is TrackDP else p.entries
        if p.base is not None and p.base.unreadable:
            self.touch(o)
            p.entries.append([k, v])
            self.wrote(o)
            return
        for e in ents:
            if self.key_eq(e[0], k):
                if p.isset:
                    return
                if e[1] is not v:
                    self.touch(o)
                    e[1] = v
                    self.wrote(o)
                return
        if type(p) is TrackDP and p.isset:
            # a repetition of a loop that adds: whether an earlier one added an equal element makes no difference
            self.touch(o)
            p.raw.append([k, v])
            self.wrote(o)
            return
        if p.base is not None:
            for e in p.over:
                if self.key_eq(e[0], k):
                    if e[1] is DELETED:
                        self.touch(o)
                        p.entries.append([k, v])
                        self.wrote(o)
                    elif e[1] is not v and not p.isset:
                        self.touch(o)
                        e[1] = v
                        self.wrote(o)
                    return
            b = self.base_find(p.base, k)
            if b is not ABSENT:
                if b is v or p.isset:
                    return
                self.touch(o)
                p.over.append([k, v])
                self.wrote(o)
                return
        self.touch(o)
        ents.append([k, v])
        self.wrote(o)

    def dict_del(self, o, k):
        """Removes k; returns its value or ABSENT."""
        p = o.p
        for i, e in enumerate(p.entries):
            if self.key_eq(e[0], k):
                self.touch(o)
                del p.entries[i]
                self.wrote(o)
                return e[1]
        if p.base is None:
            return ABSENT
        for e in p.over:
            if self.key_eq(e[0], k):
                if e[1] is DELETED:
                    return ABSENT
                v = e[1]
                self.touch(o)
                e[1] = DELETED
                self.wrote(o)
                return v
        v = self.base_find(p.base, k)
        if v is ABSENT:
            return ABSENT
        self.touch(o)
        p.over.append([k, DELETED])
        self.wrote(o)
        return v

    def pairs(self, v):
        if isinstance(v, Obj) and isinstance(v.p, DP) and not v.p.isset:
            if v.p.base is not None:
                if not self.drain(v):
                    raise Unsupported("iteration over an unknown dictionary")
            return [(e[0], e[1]) for e in v.p.entries]
        raise Unsupported("pairs of %r" % (v,))

    def drain(self, o):
        """Makes the content of an input dictionary explicit when it is known to be completely looked up."""
        b = o.p.base
        if b.n is None:
            return False
        have = [(k, v) for k, v in b.got if v is not ABSENT]
        if self.path.valid(b.n == len(have), 3000)[0] != "discharged":
            return False
        if len(have) > 1 and not o.p.isset:
            self.loops.key_fns(b)
            order = []
            for k, v in have:
                i = 0
                while i < len(order) and self.path.decide(b.pos(term(order[i][0])) < b.pos(term(k))):
                    i += 1
                order.insert(i, (k, v))
            have = order
        ents = []
        for k, v in have:
            w = [e[1] for e in o.p.over if self.key_eq(e[0], k)]
            if w and w[0] is DELETED:
                continue
            ents.append([k, w[0] if w else v])
        o.p.entries = ents + o.p.entries
        o.p.base = None
        o.p.over = []
        return True

    def contains(self, c, x):
        if isinstance(c, Obj):
            m = self.find(c, "__contains__")
            if m is not None:
                return self.truth(self.call_func(m, [c, x], {}))
            if isinstance(c.p, DP):
                return self.dict_find(c, x) is not ABSENT
            if isinstance(c.p, LP):
                if c.p.plain():
                    return any(y is x or self.truth(self.eq(y, x)) for y in list(c.p.parts))
                return self.loops.in_list(c, x)
            if isinstance(c.p, Opaque):
                self.lossy("membership in an abstracted container")
                return self.path.fresh("bool", "in")
        if isinstance(c, tuple):
            acc = []
            for y in c:
                if y is x:
                    return True
                r = self.eq(y, x)
                if isinstance(r, Sym):
                    acc.append(r.t)
                elif self.truth(r):
                    return True
            return boolv(z3.Or(*acc)) if acc else False
        if isinstance(c, View):
            if c.kind == "keys":
                return self.dict_find(c.d, x) is not ABSENT
            return any(y is x or self.truth(self.eq(y, x)) for y in self.iterate(c))
        if kind(c) == "str":
            if kind(x) != "str":
                raise self.exc("TypeError", "'in <string>' requires string")
            if type(c) is str and type(x) is str:
                return x in c
            r = self.bi.contains(c, x)
            if r is not None:
                return r
            for y in (c, x):
                if type(y) is str:
                    self.path.lit(y)
            return boolv(z3.Contains(term(c), term(x)))
        if isinstance(c, RangeV) and kind(x) == "int" and type(c.step) is int and self.is_symbolic_iter(c) | (type(x) is not int):
            a, b, t = term(c.a), term(c.b), term(x)
            if c.step < 0:
                a, b = b + 1, a + 1
            at = term(c.a)
            return boolv(z3.And(t >= a, t < b, *([(t - at) % abs(c.step) == 0] if abs(c.step) != 1 else [])))
        if isinstance(c, (GenV, RangeV)):
            return any(self.truth(self.eq(y, x)) for y in self.iterate(c))
        r = self.bi.contains(c, x)
        if r is not None:
            return r
        if c is None:
            raise self.exc("TypeError", "argument of type 'NoneType' is not iterable")
        raise Unsupported("in %r" % (c,))

    def is_symbolic_iter(self, v):
        if isinstance(v, Obj):
            if isinstance(v.p, LP):
                return not v.p.plain()
            if isinstance(v.p, DP):
                return v.p.base is not None and not self.drain(v)
            return isinstance(v.p, Opaque)
        if isinstance(v, View):
            return self.is_symbolic_iter(v.d)
        if isinstance(v, RangeV):
            return not all(type(x) is int for x in (v.a, v.b, v.step))
        return type(v).__name__ in ("SymSeq", "SymGen")

    def iterate(self, v):
        """Python iterator over the elements (concrete length)."""
        if isinstance(v, (tuple,)):
            return iter(v)
        if isinstance(v, str):
            return iter(list(v))
        if isinstance(v, GenV):
            return v.it
        if isinstance(v, RangeV):
            if all(type(x) is int for x in (v.a, v.b, v.step)):
                return iter(range(v.a, v.b, v.step))
            raise Unsupported("symbolic range")
        if isinstance(v, View):
            d = v.d
            ps = self.pairs(d)
            if v.kind == "keys":
                return iter([k for k, _ in ps])
            if v.kind == "values":
                return iter([x for _, x in ps])
            return iter([(k, x) for k, x in ps])
        if isinstance(v, Obj):
            m = self.find(v, "__iter__")
            if m is not None:
                return self.iterate(self.call_func(m, [v], {}))
            if isinstance(v.p, LP):
                if not v.p.plain():
                    raise Unsupported("iteration over a list of unknown length")
                return self.live_list(v)
            if isinstance(v.p, DP):
                if v.p.base is not None and not self.drain(v):
                    raise Unsupported("iteration over an unknown dictionary")
                if v.p.isset and len(v.p.entries) > 1:
                    self.ctl.assume("sets are iterated in insertion order")
                return iter([e[0] for e in v.p.entries])
        r = self.bi.iterate(v)
        if r is not None:
            return r
        if v is None or isinstance(v, (int, float, bool)):
            raise self.exc("TypeError", "object is not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def live_list(self, o):
        i = 0
        while i < len(o.p.parts):
            yield o.p.parts[i]
            i += 1

    def locate(self, o, i, insert=False):
        """(part index, offset term or None) of list index i (0 <= i < len, or <= len when insert)."""
        p = o.p
        acc = 0          # python int or term
        for j, x in enumerate(p.parts):
            if isinstance(x, Seg):
                n = z3.simplify(x.hi - x.lo)
                if self.path.decide(term(i) - acc < n if not isinstance(i, int) or not isinstance(acc, int) else z3.IntVal(i - acc) < n):
                    return j, z3.simplify(x.lo + term(i) - acc)
                acc = z3.simplify(acc + n)
            else:
                if self.path.decide(z3.simplify(term(i) == acc) if not (isinstance(i, int) and isinstance(acc, int)) else i == acc):
                    return j, None
                acc = acc + 1
        return len(p.parts), None

    def seg_get(self, seg, idx):
        """Element idx (absolute) of the base of a segment."""
        b = seg.base
        if self.tlog is not None:
            self.tlog.append((b, idx))
        for k, v in b.got:
            if self.path.decide(k == idx):
                return v
        v = self.made(b, lambda: b.make(self, idx))
        b.got.append((idx, v))
        for f in list(b.facts):
            f(self, idx, v)
        return v

    def list_get(self, o, i):
        if self.rlog is not None:
            self.rlog.add(o)
        n = self.length(o)
        if type(i) is int and type(n) is int:
            if not -n <= i < n:
                raise self.exc("IndexError", "list index out of range")
            return o.p.parts[i]
        if type(i) is int and i < 0:
            i = back("int", z3.simplify(term(n) + i))
        elif not type(i) is int:
            if self.path.decide(term(i) < 0):
                i = back("int", z3.simplify(term(n) + term(i)))
        if not self.path.decide(z3.And(term(i) >= 0, term(i) < term(n))):
            raise self.exc("IndexError", "list index out of range")
        j, off = self.locate(o, i)
        x = o.p.parts[j]
        return self.seg_get(x, off) if isinstance(x, Seg) else x

    def list_insert(self, o, i, v):
        p = o.p
        n = self.length(o)
        if type(i) is int and type(n) is int:
            i = max(0, n + i) if i < 0 else min(i, n)
            self.touch(o)
            p.parts.insert(i, v)
            self.wrote(o)
            return
        if self.path.decide(term(i) < 0):
            i = back("int", z3.simplify(z3.If(term(n) + term(i) < 0, 0, term(n) + term(i))))
        if self.path.decide(term(i) >= term(n)):
            self.touch(o)
            p.parts.append(v)
            self.wrote(o)
            return
        j, off = self.locate(o, i)
        x = p.parts[j]
        self.touch(o)
        if isinstance(x, Seg):
            p.parts[j:j + 1] = [Seg(x.base, x.lo, off), v, Seg(x.base, off, x.hi)]
        else:
            p.parts.insert(j, v)
        self.wrote(o)

    def getitem(self, o, i):
        if isinstance(o, Obj):
            m = self.find(o, "__getitem__")
            if m is not None:
                return self.call_func(m, [o, i], {})
            if isinstance(o.p, LP):
                if kind(i) not in ("int", "bool"):
                    raise self.exc("TypeError", "list indices must be integers")
                return self.list_get(o, i)
            if isinstance(o.p, DP) and not o.p.isset:
                v = self.dict_find(o, i)
                if v is ABSENT:
                    raise self.exc("KeyError", "key")
                return v
        if isinstance(o, tuple):
            if type(i) is int:
                if not -len(o) <= i < len(o):
                    raise self.exc("IndexError", "tuple index out of range")
                return o[i]
            for j in range(len(o)):
                if self.truth(self.eq(i, j)):
                    return o[j]
            raise self.exc("IndexError", "tuple index out of range")
        if type(o) is str and type(i) is int:
            if not -len(o) <= i < len(o):
                raise self.exc("IndexError", "string index out of range")
            return o[i]
        if isinstance(o, Sym) and o.k == "str" and type(i) is int:
            return self.bi.str_index(o, i)
        if o is None:
            raise self.exc("TypeError", "'NoneType' object is not subscriptable")
        r = self.bi.getitem(o, i)
        if r is not None:
            return r
        raise Unsupported("subscript of %r" % (o,))

    def getslice(self, o, s):
        _, a, b, step = s
        if isinstance(o, (str, tuple)):
            if all(x is None or type(x) is int for x in (a, b, step)):
                return o[slice(a, b, step)]
        if isinstance(o, Obj) and isinstance(o.p, LP) and o.p.plain() and all(x is None or type(x) is int for x in (a, b, step)):
            return self.mklist(o.p.parts[slice(a, b, step)])
        if isinstance(o, Obj) and isinstance(o.p, LP) and a is None and b is None and step is None:
            return self.new(self.B("list"), LP(list(o.p.parts)))
        return self.bi.getslice(o, a, b, step)

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            m = self.find(o, "__setitem__")
            if m is not None:
                return self.call_func(m, [o, i, v], {})
            if isinstance(o.p, LP) and not isinstance(i, tuple):
                n = self.length(o)
                if type(i) is int and type(n) is int:
                    if not -n <= i < n:
                        raise self.exc("IndexError", "list assignment index out of range")
                    if o.p.parts[i] is not v:
                        self.touch(o)
                        o.p.parts[i] = v
                        self.wrote(o)
                    return
                if not self.path.decide(z3.And(term(i) >= 0, term(i) < term(n))):
                    raise self.exc("IndexError", "list assignment index out of range")
                j, off = self.locate(o, i)
                x = o.p.parts[j]
                self.touch(o)
                if isinstance(x, Seg):
                    o.p.parts[j:j + 1] = [Seg(x.base, x.lo, off), v, Seg(x.base, z3.simplify(off + 1), x.hi)]
                else:
                    o.p.parts[j] = v
                self.wrote(o)
                return
            if isinstance(o.p, DP) and not o.p.isset:
                self.dict_set(o, i, v)
                return
        if self.bi.setitem(o, i, v):
            return
        if o is None:
            raise self.exc("TypeError", "'NoneType' object does not support item assignment")
        raise Unsupported("item assignment on %r" % (o,))

    def delitem(self, o, i):
        if isinstance(o, Obj):
            m = self.find(o, "__delitem__")
            if m is not None:
                return self.call_func(m, [o, i], {})
            if isinstance(o.p, DP):
                if self.dict_del(o, i) is ABSENT:
                    raise self.exc("KeyError", "key")
                return
            if isinstance(o.p, LP) and type(i) is int and o.p.plain():
                if not -len(o.p.parts) <= i < len(o.p.parts):
                    raise self.exc("IndexError", "list assignment index out of range")
                self.touch(o)
                del o.p.parts[i]
                self.wrote(o)
                return
        raise Unsupported("del item")

    # ------------------------------------------------------------ hashing
    def hash(self, v):
        k = kind(v)
        if k in ("bool", "int", "float"):
            if not isinstance(v, Sym):
                return uf_int("hash.num", term(float(v)) if False else z3.ToReal(self.num(v)) if k != "float" else term(v))
            t = self.num(v)
            return uf_int("hash.num", z3.ToReal(t) if t.sort() == INT else t)
        if k == "str":
            return uf_int("hash.str", term(v))
        if k == "uuid":
            return uf_int("hash.uuid", v.t)
        if k == "None":
            return Sym("int", z3.Int("hash.None"))
        if k == "tuple":
            t = z3.IntVal(len(v))
            for x in v:
                h = self.hash(x)
                t = uf("hash.cons", INT, INT, INT)(t, term(h))
            return Sym("int", t)
        if k == "datetime":
            return uf_int("hash.dt", v.inst)
        if isinstance(v, ClassVal):
            return Sym("int", uf("hash.id", INT, INT)(z3.IntVal(-v.c.cid)))
        if isinstance(v, Obj):
            for c in self.classes(v):
                # defining __eq__ without __hash__ makes a class unhashable
                for x in c.mro():
                    if "__hash__" in x.methods:
                        break
                    if "__hash__" in x.attrs:
                        break
                    if "__eq__" in x.methods or x.builtin in ("list", "dict", "set"):
                        raise self.exc("TypeError", "unhashable type: '%s'" % c.name)
            m = self.find(v, "__hash__")
            if m is not None:
                return self.call_func(m, [v], {})
            return Sym("int", uf("hash.id", INT, INT)(z3.IntVal(v.id)))
        if isinstance(v, EnumVal):
            return Sym("int", uf("hash.id", INT, INT)(z3.IntVal(-10 ** 6 - v.cls.cid)))
        r = self.bi.hash_(v)
        if r is not None:
            return r
        raise Unsupported("hash of %r" % (v,))


def uf_int(name, t):
    return Sym("int", uf(name, t.sort(), INT)(t))


class _LazyAttr:
    def __init__(self, *a):
        self.a = a


def _names(expr, n):
    return any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(expr))
