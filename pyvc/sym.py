"""Symbolic values, the string / number theory used for them, and the state of one execution path."""
import time
from fractions import Fraction
import z3
from .program import Unsupported

z3.set_param("smt.string_solver", "seq")

INT, STR, REAL, BOOL = z3.IntSort(), z3.StringSort(), z3.RealSort(), z3.BoolSort()


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """The path ends here on purpose (end of an inductive step)."""


class Sym:
    """A symbolic scalar.  k: bool int float str uuid."""
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return "%s<%s>" % (self.k, self.t)


class DT:
    """A datetime: microseconds since the epoch (UTC) and offset in minutes (None: naive, inst counts local time)."""
    __slots__ = ("inst", "off")

    def __init__(self, inst, off):
        self.inst = inst
        self.off = off


_NAMES = {}


def names(t):
    """The free constants of a term."""
    r = _NAMES.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    _NAMES[t.get_id()] = (t, frozenset(out))
    return _NAMES[t.get_id()][1]


class TD:
    """A timedelta in microseconds."""
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us


SORT = {"bool": BOOL, "int": INT, "float": REAL, "str": STR, "uuid": INT}

_UF = {}


def uf(name, *sorts):
    f = _UF.get(name)
    if f is None:
        f = _UF[name] = z3.Function(name, *sorts)
    return f


def kind(v):
    if v is None:
        return "None"
    if isinstance(v, Sym):
        return v.k
    t = type(v)
    if t is bool:
        return "bool"
    if t is int:
        return "int"
    if t is float:
        return "float"
    if t is str:
        return "str"
    if t is tuple:
        return "tuple"
    if t is DT:
        return "datetime"
    if t is TD:
        return "timedelta"
    return t.__name__


def term(v):
    """The z3 term of a scalar."""
    if isinstance(v, Sym):
        return v.t
    if type(v) is bool:
        return z3.BoolVal(v)
    if type(v) is int:
        return z3.IntVal(v)
    if type(v) is float:
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return z3.RealVal(Fraction(v))
    if type(v) is str:
        return strlit(v)
    raise Unsupported("no term for " + kind(v))


def strlit(s):
    out = []
    for c in s:
        o = ord(c)
        out.append(c if 32 <= o < 127 and c != "\\" else "\\u{%x}" % o)
    return z3.StringVal("".join(out))


def unlit(t):
    """Python string of a z3 string literal."""
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1:i + 3] == "u{":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def back(k, t):
    """Sym, or the concrete value when the term is a literal."""
    if k == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif k == "int" and z3.is_int_value(t):
        return t.as_long()
    elif k == "str" and z3.is_string_value(t):
        return unlit(t)
    return Sym(k, t)


def boolv(t):
    if type(t) is bool:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym("bool", t)


def parts_of(t):
    """Flattened pieces of a string term."""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for c in t.children():
            out += parts_of(c)
        return out
    return [t]


def solid(p, at):
    """A part of a text that begins (ends) with no blank."""
    if z3.is_string_value(p):
        u = unlit(p)
        return u != "" and not u[at].isspace()
    return z3.is_app(p) and p.num_args() == 1 and (p.decl().name() in ("i2s", "f2s", "u2s") or p.decl().name().startswith("dig"))


def has_uf(t, names, depth=6):
    if not z3.is_app(t):
        return False
    if t.decl().name() in names:
        return True
    return depth > 0 and any(has_uf(c, names, depth - 1) for c in t.children())


class Path:
    """One execution: decisions, path condition, obligations."""

    def __init__(self, prefix, ctl):
        self.prefix = prefix
        self.trace = []          # (choice, other choices)
        self.ctl = ctl
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000 if getattr(ctl, "unknowns", 0) < 4 else 150)
        self.known = {}
        self.keep = []
        self.n = 0
        self.facts = []
        self.lossy = None        # why a failing model might not be real
        self.uuids = []
        self.made = []           # results of uuid4()
        self.lits = set()
        self.words = set()       # names of unknown texts that are words
        self.fns = set()
        self.slts = []
        self.ranked = {}
        self.lit_eq_done = set()

    # ---- fresh names
    def fresh(self, k, hint="v"):
        self.n += 1
        return Sym(k, z3.Const("%s!%d" % (hint, self.n), SORT[k]))

    def fresh_term(self, sort, hint="t"):
        self.n += 1
        return z3.Const("%s!%d" % (hint, self.n), sort)

    # ---- path condition
    def assume(self, t):
        if type(t) is bool:
            if not t:
                raise Infeasible()
            return
        if isinstance(t, Sym):
            t = t.t
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.solver.add(t)
        self.note(t, True)

    def note(self, t, v):
        self.keep.append(t)
        self.known[t.get_id()] = v
        if z3.is_not(t):
            self.known[t.arg(0).get_id()] = not v
        else:
            nt = z3.simplify(z3.Not(t))
            self.keep.append(nt)
            self.known[nt.get_id()] = not v

    def check(self, *extra):
        self.ctl.tick()
        t0 = time.time()
        r = self.solver.check(*extra)
        self.ctl.solver_s += time.time() - t0
        if r == z3.unknown:
            self.ctl.unknowns = getattr(self.ctl, "unknowns", 0) + 1
            if self.ctl.unknowns == 4:
                self.solver.set("timeout", 150)
        self.ctl.checks += 1
        return r

    def decide(self, t):
        if isinstance(t, Sym):
            t = t.t
        if type(t) is bool:
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        v = self.known.get(t.get_id())
        if v is not None:
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, ()))
        else:
            nt = z3.Not(t)
            yes = self.check(t) != z3.unsat
            if not yes:
                if self.check(nt) == z3.unsat:
                    raise Infeasible()
                c, alt = False, ()
            else:
                no = self.check(nt) != z3.unsat
                c, alt = True, ((False,) if no else ())
            self.trace.append((c, alt))
        self.solver.add(t if c else z3.Not(t))
        self.note(t, c)
        return c

    def local(self, t):
        """Does t follow from the facts over its own variables alone?  (True, or unknown.)"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        vs = names(t)
        s = z3.Solver()
        s.set("timeout", 500)
        for a in self.solver.assertions():
            for b in (a.children() if z3.is_and(a) else [a]):
                if names(b) <= vs:
                    s.add(b)
        t0 = time.time()
        r = s.check(z3.Not(t)) == z3.unsat
        self.ctl.solver_s += time.time() - t0
        return r

    def pick(self, n):
        """An unconstrained choice of 0..n-1: every one is explored."""
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, ()))
        else:
            c = 0
            self.trace.append((0, tuple(range(1, n))))
        return c

    def valid(self, t, timeout=20000):
        """(status, model): is t implied by the path condition?"""
        if type(t) is bool:
            if t:
                return "discharged", None
            t = z3.BoolVal(False)
        t = z3.simplify(t)
        if z3.is_true(t) or self.known.get(t.get_id()) is True:
            return "discharged", None
        self.solver.set("timeout", timeout)
        r = self.check(z3.Not(t))
        self.solver.set("timeout", 4000 if getattr(self.ctl, "unknowns", 0) < 4 else 150)
        if r == z3.unsat:
            return "discharged", None
        if r == z3.sat:
            return "failed", self.solver.model()
        return "unknown", None

    # ---- strings
    def lit(self, s):
        """A literal that meets symbolic strings: ground facts of the string functions in use."""
        if s in self.lits:
            return
        self.lits.add(s)
        for f in list(self.fns):
            self.ground(f, s)

    def use(self, f):
        if f not in self.fns:
            self.fns.add(f)
            for s in list(self.lits):
                self.ground(f, s)

    def ground(self, f, s):
        v = getattr(s, f)()
        self.assume(uf("s." + f, STR, STR)(strlit(s)) == strlit(v))

    def strfn(self, f, v):
        """lower / upper / strip of a string."""
        if type(v) is str:
            return getattr(v, f)()
        t = v.t
        if f == "strip":
            # blanks around the unknown part
            ps = list(parts_of(t))
            n = len(ps)
            while ps and z3.is_string_value(ps[0]) and unlit(ps[0]).strip() == "":
                ps.pop(0)
            while ps and z3.is_string_value(ps[-1]) and unlit(ps[-1]).strip() == "":
                ps.pop()
            if len(ps) < n:
                if not ps:
                    return ""
                t = z3.Concat(*ps) if len(ps) > 1 else ps[0]
                if z3.is_string_value(t):
                    return unlit(t).strip()
            if solid(ps[0], 0) and solid(ps[-1], -1):
                return Sym("str", t)
        fn = uf("s." + f, STR, STR)
        self.use(f)
        if t.num_args() == 1 and t.decl().name() == "s." + f:
            return v
        r = fn(t)
        self.assume(fn(r) == r)
        if f in ("lower", "upper"):
            ps = parts_of(t)
            if len(ps) > 1 and z3.is_string_value(ps[-1]) and unlit(ps[-1]).isascii():
                lit = unlit(ps[-1])
                pre = z3.Concat(*ps[:-1]) if len(ps) > 2 else ps[0]
                self.assume(r == z3.Concat(uf("s.pre." + f, STR, STR, STR)(pre, ps[-1]), strlit(getattr(lit, f)())))
            elif len(ps) > 1 and z3.is_string_value(ps[0]) and unlit(ps[0]).isascii():
                lit = unlit(ps[0])
                suf = z3.Concat(*ps[1:]) if len(ps) > 2 else ps[1]
                self.assume(r == z3.Concat(strlit(getattr(lit, f)()), uf("s.suf." + f, STR, STR, STR)(ps[0], suf)))
            if t.decl().name() == "u2s":
                self.assume(uf("s2u", STR, INT)(r) == t.arg(0))
            self.assume((r == z3.StringVal("")) == (t == z3.StringVal("")))
        if f == "strip":
            self.assume(z3.Implies(t == z3.StringVal(""), r == z3.StringVal("")))
        return Sym("str", r)

    def str_eq(self, a, b):
        for x in (a, b):
            if type(x) is str:
                self.lit(x)
        return term(a) == term(b)

    def slt(self, a, b):
        """a < b for strings.  The strings with their order embed into the rationals: rank is such an embedding, and unrank
        makes it injective; literals are placed by their real order."""
        if type(a) is str and type(b) is str:
            return a < b
        ta, tb = term(a), term(b)
        f, g = uf("rank", STR, REAL), uf("unrank", REAL, STR)
        for x in (ta, tb):
            if x.get_id() not in self.ranked:
                self.ranked[x.get_id()] = x
                self.assume(g(f(x)) == x)
                if z3.is_string_value(x):
                    for y in self.slts:
                        self.assume(f(x) < f(y) if unlit(x) < unlit(y) else f(y) < f(x))
                    self.slts.append(x)
        return f(ta) < f(tb)
