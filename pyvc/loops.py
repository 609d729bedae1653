"""Loops over containers of unknown size.

A loop over an unknown run of elements is explored in three parts: a probe (what does the body change?), the inductive step
(one generic iteration from the state the inferred invariant describes; leaving the loop continues the path) and the exit
(the invariant at the end).  The invariant says that earlier iterations ran to completion, that nothing but the probed
accumulators changed, and what each accumulator holds: the values the body appends / stores / adds for each earlier element.
It is checked by the step: an iteration that changes anything else, or an accumulator in another way, is not accepted."""
import ast
import z3
from .program import Unsupported
from .sym import Sym, DT, Infeasible, PathEnd, kind, term, back, boolv, uf, INT, STR, REAL, BOOL, SORT
from .interp import (TrackLP, TrackDP, DeadLP, DeadDP, Obj, LP, DP, Seg, Base, Opaque, ClassVal, FuncVal, View, RangeV, GenV, PyExc, ReturnS, BreakS, ContinueS, Env,
                     ABSENT, DELETED, UNKNOWN_LOCAL, OpaqueResult, Lazy)


class Run:
    """n unknown elements; get(pos) gives one.  trig: (base, offset): element pos lies at offset + pos of base."""

    def __init__(self, n, get, trig=(), name="run"):
        self.n = n
        self.get = get
        self.trig = list(trig)
        self.name = name


class SymSeq:
    """A lazily mapped / zipped / enumerated iterable: items and runs."""

    def __init__(self, parts):
        self.parts = parts


class SymGen:
    """A generator expression over an unknown iterable."""

    def __init__(self, seq, cond, elt):
        self.seq = seq
        self.cond = cond
        self.elt = elt


def has_const(t, c):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo.extend(x.children())
    return False


class Loops:
    def __init__(self, it):
        self.it = it
        self.nrun = 0
        self.joins = []

    @property
    def path(self):
        return self.it.path

    # ------------------------------------------------------------ sequences
    def parts(self, xs):
        """Items and runs of an iterable; a run whose length is known to be small is spelled out."""
        out = []
        for x in self.raw_parts(xs):
            if isinstance(x, Run):
                c = self.small(x.n)
                if c is not None:
                    out += [("item", x.get(z3.IntVal(i))) for i in range(c)]
                    continue
            out.append(x)
        return out

    def small(self, n):
        n = z3.simplify(n)
        if z3.is_int_value(n):
            return max(0, n.as_long()) if n.as_long() <= 4 else None
        for c in range(4):
            if self.path.known.get(z3.simplify(n == c).get_id()) is True:
                return c
        if self.path.known.get(z3.simplify(n <= 0).get_id()) is True:
            return 0
        return None

    def raw_parts(self, xs):
        it = self.it
        if isinstance(xs, SymSeq):
            return xs.parts
        if isinstance(xs, SymGen):
            if xs.cond is not None:
                raise Unsupported("filtered generator over unknown data")
            return self.map_(xs.seq, xs.elt).parts
        if isinstance(xs, Obj) and it.find(xs, "__iter__") is not None:
            return self.parts(it.call_func(it.find(xs, "__iter__"), [xs], {}))
        if isinstance(xs, Obj) and isinstance(xs.p, LP):
            out = []
            for x in xs.p.parts:
                if isinstance(x, Seg):
                    out.append(self.seg_run(x))
                else:
                    out.append(("item", x))
            return out
        if isinstance(xs, Obj) and isinstance(xs.p, DP):
            return self.dict_parts(xs, "keys")
        if isinstance(xs, View):
            return self.dict_parts(xs.d, xs.kind)
        if isinstance(xs, RangeV):
            n = it.length(xs)
            if type(n) is int:
                return [("item", i) for i in range(xs.a, xs.b, xs.step)]
            a, st = term(xs.a), xs.step
            return [Run(n.t, lambda p: back("int", z3.simplify(a + st * p)), (), "range")]
        return [("item", x) for x in it.iterate(xs)]

    def seg_run(self, seg):
        return Run(z3.simplify(seg.hi - seg.lo), lambda p: self.it.seg_get(seg, z3.simplify(seg.lo + p)), [(seg.base, seg.lo)])

    def key_fns(self, base):
        if base.key_at is None:
            self.nrun += 1
            s = base.ksort
            base.key_at = z3.Function("key_at!%d" % self.nrun, INT, SORT[s])
            base.pos = z3.Function("pos!%d" % self.nrun, SORT[s], INT)
            self.it.base_len(base)
            for k, v in list(base.got):
                if v is not ABSENT:
                    self.present(base, k)
        return base.key_at

    def present(self, base, k):
        if base.key_at is None or kind(k) != base.ksort:
            return
        t = term(k)
        p = base.pos(t)
        self.path.assume(z3.And(p >= 0, p < base.n, base.key_at(p) == t))

    def dict_at(self, base, p):
        """(key, value) at position p of an unknown dictionary."""
        it = self.it
        ka = self.key_fns(base)
        t = ka(z3.simplify(p))
        k = Sym(base.ksort, t)
        self.path.assume(base.pos(t) == p)
        for kk, v in base.got:
            if v is ABSENT:
                if kind(kk) == base.ksort:
                    self.path.assume(term(kk) != t)
                continue
            if self.path.decide(term(kk) == t):
                return kk, v
        return k, it.base_add(base, k)

    def dict_parts(self, d, what):
        it = self.it
        p = d.p
        out = []
        if p.base is not None and not it.drain(d):
            base = p.base
            if base.find is not None and base.run is None:
                raise Unsupported("iteration over a set of derived values")
            if any(x is DELETED for _, x in p.over):
                raise Unsupported("iteration over a dictionary after a removal")
            if base.run is not None:
                n, at, trig = base.run(self)
            else:
                n = it.base_len(base)
                self.key_fns(base)
                at, trig = (lambda q: self.dict_at(base, q)), [(base, z3.IntVal(0))]

            def get(q):
                k, v = at(q)
                for kk, vv in p.over:
                    if it.key_eq(kk, k):
                        v = vv
                return k if what == "keys" else v if what == "values" else (k, v)
            out.append(Run(n, get, trig))
        for k, v in p.entries:
            out.append(("item", k if what == "keys" else v if what == "values" else (k, v)))
        return out

    def enumerate_(self, xs, start):
        out, off = [], term(start)
        for x in self.parts(xs):
            if isinstance(x, Run):
                o = off
                out.append(Run(x.n, lambda p, o=o, x=x: (back("int", z3.simplify(o + p)), x.get(p)), x.trig))
                off = z3.simplify(off + x.n)
            else:
                out.append(("item", (back("int", z3.simplify(off)), x[1])))
                off = off + 1
        return SymSeq(out)

    def at(self, parts, p):
        """Element p of a sequence of parts (in range)."""
        acc = z3.IntVal(0)
        for x in parts:
            if isinstance(x, Run):
                if self.path.decide(z3.simplify(p < acc + x.n)):
                    return x.get(z3.simplify(p - acc))
                acc = z3.simplify(acc + x.n)
            else:
                if self.path.decide(z3.simplify(p == acc)):
                    return x[1]
                acc = z3.simplify(acc + 1)
        raise Infeasible()

    def total(self, parts):
        n = z3.IntVal(0)
        for x in parts:
            n = n + (x.n if isinstance(x, Run) else 1)
        return z3.simplify(n)

    def zip_(self, xss):
        ps = [self.parts(x) for x in xss]
        if all(len(p) == 1 and isinstance(p[0], Run) for p in ps):
            runs = [p[0] for p in ps]
            n = runs[0].n
            for r in runs[1:]:
                n = n if self.path.decide(n <= r.n) else r.n
            return SymSeq([Run(n, lambda p: tuple(r.get(p) for r in runs), [t for r in runs for t in r.trig])])
        ns = [self.total(p) for p in ps]
        n = ns[0]
        for m in ns[1:]:
            n = n if self.path.decide(n <= m) else m
        trig = []
        for p in ps:
            acc = z3.IntVal(0)
            for x in p:
                if isinstance(x, Run):
                    trig += [(b, z3.simplify(o - acc)) for b, o in x.trig]
                    acc = z3.simplify(acc + x.n)
                else:
                    acc = acc + 1
        return SymSeq([Run(n, lambda q: tuple(self.at(p, q) for p in ps), trig)])

    def map_(self, xs, f):
        it = self.it
        out = []
        for x in self.parts(xs):
            if isinstance(x, Run):
                out.append(Run(x.n, it.frozen(lambda p, x=x: f(x.get(p))), x.trig))
            else:
                out.append(("item", f(x[1])))
        return SymSeq(out)

    # ------------------------------------------------------------ quantifiers
    def fact(self, run, upto, holds, extra=()):
        """For every position p < upto of the run, holds(p): instantiated for the elements that are looked at."""
        it = self.it
        done = []
        holds = it.frozen(holds)

        def inst(p):
            p = z3.simplify(p)
            if any(p.eq(q) for q in done):
                return
            done.append(p)
            if self.path.decide(z3.simplify(z3.And(p >= 0, p < upto))):
                holds(p)
        trig = [(b, o, 1) for b, o in run.trig] + list(extra)
        for b, o in run.trig:
            # a list with one element per iteration: the elements that the iteration was about
            while b.each and len(b.derived.trig) == 1:
                o = z3.simplify(o + b.derived.trig[0][1])
                b = b.derived.trig[0][0]
                trig.append((b, o, 1))
        for base, off, sign in trig:
            def f(it_, key, v, base=base, off=off, sign=sign):
                idx = base.pos(term(key)) if base.isdict else key
                inst(idx - off if sign == 1 else off - idx)
            if base.isdict:
                self.key_fns(base)
            base.facts.append(f)
            for k, v in list(base.got):
                if v is not ABSENT:
                    f(it, k, v)

    def probe_triggers(self, tlog, j):
        """Index expressions +-j + c that one evaluation looked up."""
        out = []
        for base, t in tlog:
            t = z3.simplify(t)
            for sign in (1, -1):
                c = z3.simplify(t - sign * j)
                if not has_const(c, j):
                    if all(not (b is base and o.eq(c) and s == sign) for b, o, s in out):
                        out.append((base, c, sign))
                    break
        return out

    def eval_at(self, run, j, test):
        """test(element j), recording the lookups it makes; returns (result, triggers)."""
        it = self.it
        keep = it.tlog
        it.tlog = []
        try:
            r = test(run.get(j))
            trig = self.probe_triggers(it.tlog, j)
        finally:
            if keep is not None:
                keep.extend(it.tlog)
            it.tlog = keep
        return r, trig

    def search(self, xs, pred, first=True):
        """Index of the first element (or some one) that satisfies pred, or None.  An exception of pred propagates."""
        it = self.it
        off = z3.IntVal(0)
        for x in self.parts(xs):
            if not isinstance(x, Run):
                if pred(x[1]):
                    return back("int", z3.simplify(off))
                off = off + 1
                continue
            if z3.is_int_value(x.n) and x.n.as_long() <= 0:
                continue
            key = self.here()
            c = self.path.pick(2)
            cache = it.ctl.cache

            def holds(p, x=x):
                try:
                    if pred(x.get(p)):
                        raise Infeasible()
                except PyExc:
                    raise Infeasible()
            if c == 0:
                j = self.path.fresh_term(INT, "at")
                self.path.assume(z3.And(j >= 0, j < x.n))
                n0 = it.clock
                try:
                    r, trig = self.eval_at(x, j, pred)
                except PyExc:
                    cache.setdefault(key, [])
                    self.fact(x, j, holds, self.kept(cache[key]))
                    raise
                self.merge(cache.setdefault(key, []), trig, it)
                if not r:
                    raise Infeasible()
                if first:
                    self.fact(x, j, holds, trig if not x.trig else ())
                return back("int", z3.simplify(off + j))
            self.fact(x, x.n, holds, self.kept(cache.get(key, [])) if not x.trig else ())
            off = z3.simplify(off + x.n)
        return None

    def here(self):
        return tuple(c for c, _ in self.path.trace)

    def merge(self, lst, trig, it):
        for b, o, s in trig:
            d = (it.base_no(b), o, s)
            if all(not (x[0] == d[0] and x[1].eq(o) and x[2] == s) for x in lst):
                lst.append(d)

    def kept(self, lst):
        return [(self.it.base_by(n), o, s) for n, o, s in lst if self.it.base_by(n) is not None]

    # ------------------------------------------------------------ lists
    def content(self, o):
        """The value of a list of scalars that is one whole unknown input list."""
        p = o.p
        if len(p.parts) == 1 and isinstance(p.parts[0], Seg):
            s = p.parts[0]
            if s.base.content is not None and z3.is_int_value(s.lo) and s.lo.as_long() == 0 and s.hi.eq(s.base.n):
                return s.base.content
        return None

    def eq_lists(self, x, y):
        it = self.it
        if self.same_parts(x, y):
            return True
        cx, cy = self.content(x), self.content(y)
        nx, ny = term(it.length(x)), term(it.length(y))
        if cx is not None and cy is not None:
            if self.path.decide(cx == cy):
                return True
            if not self.path.decide(nx == ny):
                return False
            j = self.path.fresh_term(INT, "diff")
            self.path.assume(z3.And(j >= 0, j < nx))
            a, b = it.seg_get(x.p.parts[0], j), it.seg_get(y.p.parts[0], j)
            self.path.assume(term(a) != term(b))
            return False
        if not self.path.decide(nx == ny):
            return False
        return self.search(self.zip_([x, y]), lambda v: not (v[0] is v[1] or it.truth(it.eq(v[0], v[1])))) is None

    def same_parts(self, x, y):
        a, b = x.p.parts, y.p.parts
        if len(a) != len(b):
            return False
        for u, v in zip(a, b):
            if isinstance(u, Seg) and isinstance(v, Seg):
                if not (u.base is v.base and u.lo.eq(v.lo) and u.hi.eq(v.hi)):
                    return False
            elif u is not v:
                return False
        return True

    def in_list(self, c, x):
        it = self.it
        return self.search(c, lambda y: y is x or it.truth(it.eq(y, x))) is not None

    def hash_list(self, o):
        """hash(tuple(list of scalars))"""
        c = self.content(o)
        if c is None:
            raise Unsupported("hash of an unknown tuple")
        return Sym("int", uf("hash.list", INT, INT)(c))

    def to_list(self, xs):
        it = self.it
        out = []
        for x in self.parts(xs):
            if isinstance(x, Run):
                out.append(self.seg_of_run(x))
            else:
                out.append(x[1])
        return it.new(it.B("list"), LP(out))

    def seg_of_run(self, run):
        b = Base(lambda it, idx: run.get(idx), run.n)
        b.derived = run
        b.isdict = False
        self.it.number_base(b)
        # looking at the sources instantiates nothing here; looking here looks at the sources
        return Seg(b, z3.IntVal(0), run.n)

    def slice_list(self, o, a, b, step):
        it = self.it
        if step not in (None, 1):
            raise Unsupported("slice with a step of an unknown list")
        n = term(it.length(o))

        def clamp(x, dflt):
            if x is None:
                return dflt
            t = term(x)
            if self.path.decide(t < 0):
                t = z3.simplify(t + n)
                if self.path.decide(t < 0):
                    return z3.IntVal(0)
            return t if self.path.decide(t <= n) else n
        i, j = clamp(a, z3.IntVal(0)), clamp(b, n)
        if self.path.decide(j <= i):
            return it.mklist([])
        out, acc = [], z3.IntVal(0)
        for x in o.p.parts:
            if isinstance(x, Seg):
                m = z3.simplify(x.hi - x.lo)
                lo = i - acc if self.path.decide(i > acc) else z3.IntVal(0)
                hi = j - acc if self.path.decide(j < acc + m) else m
                if self.path.decide(lo < hi):
                    out.append(Seg(x.base, z3.simplify(x.lo + lo), z3.simplify(x.lo + hi)))
                acc = z3.simplify(acc + m)
            else:
                if self.path.decide(z3.And(acc >= i, acc < j)):
                    out.append(x)
                acc = z3.simplify(acc + 1)
        return it.new(it.B("list"), LP(out))

    def join(self, sep, xs):
        """sep.join(unknown list): a function of the texts, uninterpreted."""
        it = self.it
        ps = self.parts(xs)
        if not any(isinstance(x, Run) for x in ps):
            return it.bi.m_str(sep, "join", [it.mklist([x[1] for x in ps])], {})
        if len(ps) == 1 and self.small(ps[0].n) is None:
            for c in (0, 1, 2):
                if self.path.decide(ps[0].n == c):
                    return self.join(sep, SymSeq(ps))
        n = self.total(ps)
        for sep2, n2, ps2, t in self.joins:        # the same texts give the same result
            if not it.truth(it.eq(sep, sep2)) or not self.path.decide(n == n2):
                continue
            if self.search(self.zip_([SymSeq(ps), SymSeq(ps2)]), lambda v: not it.truth(it.eq(v[0], v[1]))) is None:
                return t
        t = Sym("str", self.path.fresh_term(STR, "join"))
        self.joins.append((sep, n, ps, t))
        return t

    def text_of(self, v):
        raise Unsupported("text of an unknown container")

    # ------------------------------------------------------------ dictionaries and sets
    def copy_dict(self, o, a):
        it = self.it
        p = o.p
        if p.entries or p.base is not None or p.over:
            raise Unsupported("update of a dictionary with an unknown one")
        it.touch(o)
        p.base = a.p.base
        p.over = [list(e) for e in a.p.over]
        p.entries = [list(e) for e in a.p.entries]
        it.wrote(o)

    def copy_set(self, a):
        it = self.it
        o = it.new(it.B("set"), DP(isset=True))
        if isinstance(a, Obj) and isinstance(a.p, DP):
            o.p.base = a.p.base
            o.p.over = [list(e) for e in a.p.over]
            o.p.entries = [[e[0], True] for e in a.p.entries]
            return o
        self.set_update(o, a)
        return o

    def set_update(self, o, a):
        if o.p.base is not None:
            raise Unsupported("update of an unknown set")
        parts = self.parts(a)
        runs = [x for x in parts if isinstance(x, Run)]
        for x in parts:
            if not isinstance(x, Run):
                self.it.dict_set(o, x[1], True)
        if len(runs) != 1:
            raise Unsupported("set of several unknown runs")
        self.image(o, runs[0], lambda p: runs[0].get(p))

    def image(self, o, run, value):
        """o becomes the set of value(p) over the run, besides what it holds."""
        it = self.it
        b = Base(None, None)
        b.isdict = False
        b.derived = run
        it.number_base(b)
        seq = SymSeq([Run(run.n, lambda p: p, run.trig)])

        def find(it_, k):
            for kk, v in b.got:
                if it.key_eq(kk, k):
                    return v

            def same(p):
                v = value(p)
                return v is not ABSENT and it.key_eq(v, k)
            r = ABSENT if self.search(seq, same) is None else True
            b.got.append((k, r))
            return r
        b.find = find
        b.run = None
        b.images = (run, value)
        b.holder = o
        if o.p.entries:
            raise Unsupported("adding unknown elements to a set that holds some")
        it.touch(o)
        o.p.base = b
        it.wrote(o)

    # ------------------------------------------------------------ comprehensions
    def gen_symbolic(self, e, xs, env):
        it = self.it
        g = e.generators[0]
        env = it.frozen_env(env)

        def scope(v):
            inner = Env(env, env.func, env.mod, env.cls)
            it.assign(g.target, v, inner)
            return inner
        if len(e.generators) > 1:
            raise Unsupported("nested generator over unknown data")
        cond = (lambda v: all(it.truth(it.ev(c, scope(v))) for c in g.ifs)) if g.ifs else None
        return SymGen(xs, cond, lambda v: it.ev(e.elt, scope(v)))

    def any_(self, xs, want):
        """Whether some element has truth value `want`."""
        it = self.it
        if isinstance(xs, SymGen):
            c, f = xs.cond, xs.elt
            s = xs.seq
            if isinstance(s, Obj) and isinstance(s.p, DP) and s.p.isset and s.p.base is not None and s.p.base.images is not None \
                    and not s.p.entries and not s.p.over:
                # the elements of the set, each perhaps more than once
                run, value = s.p.base.images

                def one(p):
                    v = value(p)
                    return v is not ABSENT and (c is None or c(v)) and it.truth(f(v)) == want
                return self.search(SymSeq([Run(run.n, lambda p: p, run.trig)]), one, False) is not None
            return self.search(xs.seq, lambda v: (c is None or c(v)) and it.truth(f(v)) == want, False) is not None
        return self.search(xs, lambda v: it.truth(v) == want, False) is not None

    def comp_symbolic(self, e, env):
        it = self.it
        g = e.generators[0]
        xs = it.ev(g.iter, env)
        if not it.is_symbolic_iter(xs):
            return self.plain_comp(e, xs, env)
        return self.lazy_comp(e, xs, env, lambda: it.mklist([]), "list")

    def plain_comp(self, e, xs, env):
        it = self.it
        inner = Env(env, env.func, env.mod, env.cls)
        out = []
        gens = e.generators

        def go(i, src):
            g = gens[i]
            for v in it.iterate(src):
                it.assign(g.target, v, inner)
                if all(it.truth(it.ev(c, inner)) for c in g.ifs):
                    if i + 1 < len(gens):
                        go(i + 1, it.ev(gens[i + 1].iter, inner))
                    else:
                        out.append(it.ev(e.elt, inner))
        go(0, xs)
        return it.mklist(out)

    def lazy_comp(self, e, xs, env, mk, what):
        """[elt for target in xs if ...] as the loop  for target in xs: if ...: acc.append(elt)"""
        it = self.it
        acc = mk()
        inner = Env(env, env.func, env.mod, env.cls)
        inner.v[" acc"] = acc
        meth = "append" if what == "list" else "add"
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(" acc", ast.Load()), meth, ast.Load()), [e.elt], []))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            if g is not e.generators[0]:
                body = [ast.For(g.target, g.iter, body, [])]
        st = it.ctl.nodes.get(id(e))
        if st is None:
            st = ast.For(e.generators[0].target, e.generators[0].iter, body, [])
            ast.copy_location(st, e)
            for n in ast.walk(st):
                if not hasattr(n, "lineno"):
                    n.lineno = e.lineno
                    n.col_offset = 0
            it.ctl.nodes[id(e)] = st
        self.for_symbolic(st, xs, inner)
        return acc

    # ------------------------------------------------------------ loops
    def while_symbolic(self, st, env):
        raise Unsupported("while loop")

    def for_symbolic(self, st, xs, env):
        it = self.it
        for x in self.parts(xs):
            if isinstance(x, Run):
                if z3.is_int_value(z3.simplify(x.n)) and z3.simplify(x.n).as_long() <= 0:
                    continue
                if self.path.local(x.n <= 0):
                    continue
                if self.run_loop(st, x, env) == "break":
                    return
            else:
                it.assign(st.target, x[1], env)
                try:
                    it.block(st.body, env)
                except BreakS:
                    return
                except ContinueS:
                    pass
        it.block(st.orelse, env)

    def state(self):
        """Shallow copies of every object, to see what an iteration changes."""
        out = {}
        for o in self.it.objs:
            p = o.p
            if isinstance(p, (DeadLP, DeadDP)):
                c = p
            elif type(p) is TrackLP:
                c = list(p.raw)
            elif type(p) is TrackDP:
                c = ([list(e) for e in p.raw], [], None)
            elif isinstance(p, LP):
                c = list(p.parts)
            elif isinstance(p, DP):
                c = ([list(e) for e in p.entries], [list(e) for e in p.over], p.base)
            else:
                c = p
            out[o.id] = (o, dict(o.f), c)
        return out

    def run_body(self, st, v, env):
        """One iteration.  Returns 'next' or 'break' (ReturnS and PyExc propagate)."""
        it = self.it
        it.assign(st.target, v, env)
        try:
            it.block(st.body, env)
        except ContinueS:
            pass
        except BreakS:
            return "break"
        return "next"

    def effects(self, before, clock, env0, env):
        """What changed since `before`, among the objects that existed then."""
        it = self.it
        eff = []
        for o, t in list(it.writes.values()):
            if t <= clock or not it.is_old(o, clock):
                continue
            if o.id not in before:
                raise Unsupported("the loop changes an element of unknown data")
            _, f, c = before[o.id]
            fs = [n for n in set(f) | set(o.f) if n not in f or n not in o.f or not it.same(f[n], o.f[n]) and f[n] is not o.f[n]]
            fs = [n for n in fs if not isinstance(f.get(n), Lazy)]
            for n in fs:
                eff.append(("field", (o.id, n), self.change(f.get(n, ABSENT), o.f.get(n, ABSENT))))
            if isinstance(o.p, LP):
                new = o.p.raw if type(o.p) is TrackLP else o.p.parts
                if len(new) >= len(c) and all(a is b for a, b in zip(c, new)):
                    if any(isinstance(x, Seg) for x in new[len(c):]):
                        eff.append(("list", o.id, None))
                    elif len(new) > len(c):
                        eff.append(("append", o.id, len(new) - len(c)))
                else:
                    eff.append(("list", o.id, None))
            elif isinstance(o.p, DP):
                e0, ov0, b0 = c
                if o.p.base is not b0 or len(o.p.entries) < len(e0) or any(a[0] is not b[0] for a, b in zip(e0, o.p.entries)):
                    eff.append(("dict", o.id, None))
                else:
                    changed = [e for a, e in zip(e0, o.p.entries) if a[1] is not e[1]] + [e for a, e in zip(ov0, o.p.over) if a[1] is not e[1]]
                    added = o.p.entries[len(e0):] + o.p.over[len(ov0):]
                    if changed or o.p.over[len(ov0):]:
                        eff.append(("dict", o.id, None))
                    elif added:
                        eff.append(("add" if o.p.isset else "put", o.id, len(added)))
        for n in set(env0):
            if env.v.get(n, ABSENT) is not env0[n] and not it.same(env.v.get(n), env0[n]):
                eff.append(("local", n, self.change(env0[n], env.v.get(n, ABSENT))))
        return eff

    def change(self, old, new):
        """How a scalar changes: by a constant, or to a constant; None when neither."""
        if kind(old) == "int" and kind(new) == "int":
            d = z3.simplify(term(new) - term(old))
            if z3.is_int_value(d):
                return ("inc", d.as_long())
        if new is None or type(new) in (bool, int, str):
            return ("set", new)
        return None

    def unreadable(self, o):
        """A dictionary of unknown content that nothing may look at."""
        def no(*a):
            raise Unsupported("the content of a dictionary that a loop filled")
        b = Base(None)
        b.isdict = True
        b.ksort = None
        b.holder = o
        b.find = b.run = no
        b.unreadable = True
        self.it.number_base(b)
        if o.p.base is not None and o.p.base.unreadable:
            return
        self.it.touch(o)
        if o.p.base is not None:
            raise Unsupported("a loop that fills a non-empty dictionary")
        o.p.base = b
        self.it.wrote(o)

    def run_loop(self, st, run, env):
        it = self.it
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in st.body for n in ast.walk(s)):
            raise Unsupported("yield in a loop")
        key = ("loop", id(st), self.here())
        info = it.ctl.cache.get(key)
        if info is None:
            info = it.ctl.cache[key] = dict(eff={}, trig=[], paths=0, may_none=False, counts={})
        targets = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        temps = {n.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - set(env.v)
        c = self.path.pick(3)
        env0 = {k: v for k, v in env.v.items() if k not in targets}
        n0, clock = run.n, it.mark()
        if c == 0:
            return self.probe(st, run, env, env0, info)
        accs = self.accumulators(info, env0)
        loop = _Loop(self, st, run, env, env0, accs, clock)
        if c == 1:
            j = self.path.fresh_term(INT, "j")
            self.path.assume(z3.And(j >= 0, j < run.n))
            loop.establish(j, info)
            return self.step(loop, j, info, targets)
        loop.establish(run.n, info)
        for n in temps | targets:
            env.v[n] = UNKNOWN_LOCAL
        return "next"

    def probe(self, st, run, env, env0, info):
        it = self.it
        it.quiet += 1
        it.stepping.append(len(it.frames))
        j = self.path.fresh_term(INT, "probe")
        self.path.assume(z3.And(j >= 0, j < run.n))
        it.clock += 1
        clock = it.clock
        before = self.state()
        it.tlog = tl = []
        try:
            r = self.run_body(st, run.get(j), env)
        except (ReturnS, PyExc):
            self.merge(info["trig"], self.probe_triggers(tl, j), it)
            raise PathEnd()
        self.merge(info["trig"], self.probe_triggers(tl, j), it)
        if r == "break":
            raise PathEnd()
        seen = {}
        for k, o, n in self.effects(before, clock, env0, env):
            seen[(k, o)] = n
        for k, n in seen.items():
            info["eff"].setdefault(k, set()).add(n)
        for k in info["eff"]:
            if k not in seen:
                info["eff"][k].add(0)
        if info["paths"]:
            for k in seen:
                if k not in info["counts"]:
                    info["eff"][k].add(0)
        for k in seen:
            info["counts"][k] = 1
        info["paths"] += 1
        raise PathEnd()

    def accumulators(self, info, env0):
        it = self.it
        byid = {o.id: o for o in it.objs}
        out = []
        for k, ns in sorted(info["eff"].items(), key=repr):
            if k[0] == "append":
                out.append(("append", byid[k[1]], ns))
            elif k[0] == "put":
                out.append(("put", byid[k[1]], ns))
            elif k[0] == "add":
                out.append(("add", byid[k[1]], ns))
            elif k[0] == "local":
                out.append(("local", k[1], ns))
            elif k[0] == "field":
                out.append(("field", (byid[k[1][0]], k[1][1]), ns))
            else:
                raise Unsupported("a loop that rewrites a container (%s)" % k[0])
        return out

    def step(self, loop, j, info, targets):
        it = self.it
        it.stepping.append(len(it.frames))
        it.clock += 1
        clock = it.clock
        before = self.state()
        env = loop.env
        envj = {k: v for k, v in env.v.items() if k in loop.env0}
        try:
            r = self.run_body(loop.st, loop.run.get(j), env)
        except (ReturnS, PyExc):
            it.stepping.pop()
            raise
        it.stepping.pop()
        if r == "break":
            return "break"
        allowed = set(info["eff"])
        seen = set()
        for k, o, n in self.effects(before, clock, envj, env):
            kk = (k, o)
            if kk not in allowed:
                raise Unsupported("the loop changes more in later iterations (%s %s)" % (k, o))
            if k in ("append", "put", "add") and n not in info["eff"][kk]:
                raise Unsupported("the loop accumulates differently in later iterations")
            if k in ("local", "field") and loop.rule(info["eff"][kk]) is not None and n not in info["eff"][kk]:
                raise Unsupported("the loop changes a value differently in later iterations")
            seen.add(kk)
        for kk, ns in info["eff"].items():
            r = loop.rule(ns) if kk[0] in ("local", "field") else None
            if kk not in seen and r is not None and not (r[0] == "set" and j is not None and loop.stays(kk, r)):
                raise Unsupported("the loop changes a value differently in later iterations")
        it.ctl.steps += 1
        raise PathEnd()


class _Loop:
    """The invariant of a loop: earlier iterations completed, and the accumulators hold what they produced."""

    def __init__(self, L, st, run, env, env0, accs, clock):
        self.L = L
        self.it = L.it
        self.st = st
        self.run = run
        self.env = env
        self.up = L.it.frozen_env(env.up)
        self.frames = list(L.it.frames)
        self.env0 = env0
        self.accs = accs
        self.clock = clock
        self.cache = []
        self.field0 = {(o[0].id, o[1]): o[0].f.get(o[1]) for k, o, ns in accs if k == "field"}

    def again(self, p):
        it = self.it
        it.excursion += 1
        keep, it.frames = it.frames, list(self.frames)
        try:
            return it.at_time(self.clock, lambda: self.again_(p))
        finally:
            it.frames = keep
            it.excursion -= 1

    def again_(self, p):
        """Runs the body for the element at p again, to see what it accumulates: {acc index: list of values / pairs}.
        Iterations that leave the loop are excluded by the invariant."""
        it = self.it
        p = z3.simplify(p)
        for q, r in self.cache:
            if it.path.decide(q == p):
                return r
        env = Env(self.up, self.env.func, self.env.mod, self.env.cls)
        env.v = dict(self.env0)
        saved, caps = [], {}
        for i, (k, o, ns) in enumerate(self.accs):
            if k in ("append", "put", "add"):
                it.dirty(o)
                saved.append((o, o.p, it.writes.get(o.id)))
                o.p = TrackLP() if k == "append" else TrackDP(isset=k == "add")
                caps[i] = o
            elif k == "local":
                env.v[o] = self.start(self.env0[o], ns, p)
            elif k == "field":
                it.dirty(o[0])
                saved.append((o[0], o[0].p, it.writes.get(o[0].id)))
        fields = [(o[0], o[1], o[0].f.get(o[1])) for k, o, ns in self.accs if k == "field"]
        for k, o, ns in self.accs:
            if k == "field":
                o[0].f[o[1]] = self.start(self.field0[o[0].id, o[1]], ns, p)
        keep_r, keep_q = it.rlog, it.quiet
        it.rlog = set()
        it.quiet += 1
        c0 = it.clock
        st0 = it.stepping
        it.stepping = []
        try:
            try:
                v = self.run.get(p)
                if self.L.run_body(self.st, v, env) != "next":
                    raise Infeasible()
            except (ReturnS, PyExc):
                raise Infeasible()
            res = {}
            for i, o in caps.items():
                if o.p.read:
                    raise Unsupported("the loop reads what it accumulates")
                res[i] = list(o.p.raw) if isinstance(o.p, LP) else [tuple(e) for e in o.p.raw]
        finally:
            it.rlog = keep_r
            it.quiet = keep_q
            it.stepping = st0
            for o, pl, w in saved:
                o.p = pl
                if w is None:
                    it.writes.pop(o.id, None)
                else:
                    it.writes[o.id] = w
            for o, n, x in fields:
                o.f[n] = x
        self.cache.append((p, res))
        return res

    def establish(self, upto, info):
        it, L = self.it, self.L
        trig = L.kept(info["trig"]) if not self.run.trig else ()
        # iterations before `upto` ran to their end
        L.fact(self.run, upto, lambda p: self.again(p), trig)
        it.ctl.loops += 1
        for i, (k, o, ns) in enumerate(self.accs):
            if k == "append":
                if len(ns) == 1 and max(ns) > 1:
                    k = max(ns)
                    b = Base(lambda it_, idx, i=i, k=k: self.nth(idx, i, k), z3.simplify(upto * k))
                    b.isdict = False
                    b.derived = self.run
                    b.holder = o
                    it.number_base(b)
                    it.touch(o)
                    o.p.parts.append(Seg(b, z3.IntVal(0), b.n))
                    it.wrote(o)
                elif ns != {1}:
                    self.filtered(i, o, upto, ns)
                else:
                    b = Base(lambda it_, idx, i=i: self.again(idx)[i][0], upto)
                    b.isdict = False
                    b.each = True
                    b.derived = self.run
                    b.holder = o
                    it.number_base(b)
                    it.touch(o)
                    o.p.parts.append(Seg(b, z3.IntVal(0), z3.simplify(upto)))
                    it.wrote(o)
            elif k == "put":
                self.mapped(i, o, upto, ns, trig)
            elif k == "add":
                def value(p, i=i):
                    r = self.again(p)[i]
                    if len(r) > 1:
                        raise Unsupported("several additions per iteration")
                    return r[0][0] if r else ABSENT
                run = Run(upto, self.run.get, self.run.trig)
                L.image(o, run, value)
            elif k == "local":
                self.env.v[o] = self.start(self.env0[o], ns, upto)
            elif k == "field":
                ob, fn = o
                v = self.start(ob.f.get(fn), ns, upto)
                if v is UNKNOWN_LOCAL:
                    raise Unsupported("a loop that replaces a field")
                it.touch(ob)
                ob.f[fn] = v
                it.wrote(ob)

    def rule(self, ns):
        """The one way in which every iteration changes a value."""
        if len(ns) == 1 and isinstance(next(iter(ns)), tuple):
            return next(iter(ns))
        return None

    def stays(self, kk, r):
        """An iteration that sets a value again to what it is shows no change: only for values that are already set."""
        return True

    def start(self, v0, ns, p):
        """The value of a local or field at the start of iteration p."""
        it = self.it
        r = self.rule(ns)
        if r is not None and r[0] == "inc":
            return back("int", z3.simplify(term(v0) + r[1] * p))
        if r is not None and r[0] == "set":
            return v0 if it.path.decide(p <= 0) else r[1]
        kk = kind(v0)
        if kk in SORT:
            it.lossy("a value after a loop")
            return it.path.fresh(kk, "after")
        return UNKNOWN_LOCAL

    def nth(self, idx, i, k):
        """Element idx of a list that gets k elements per iteration."""
        it = self.it
        q = it.path.fresh_term(INT, "q")
        for r in range(k):
            if r == k - 1 or it.path.decide(idx % k == r):
                it.path.assume(idx == q * k + r)
                return self.again(q)[i][r]

    def mapped(self, i, o, upto, ns, trig):
        """for k in unknown dictionary: o[k] = value (in the order of the dictionary or of its sorted values)"""
        it, L = self.it, self.L
        src = self.run.trig[0][0] if len(self.run.trig) == 1 else None
        pi = inv = lambda x: x
        if src is None and not self.run.trig:
            # a loop over the positions of a list
            at0 = {b.no: b for b, off, sign in trig if sign == 1 and b.perm is not None and z3.is_int_value(z3.simplify(off))
                   and z3.simplify(off).as_long() == 0}
            src = list(at0.values())[0] if len(at0) == 1 else None
        if src is not None and src.perm is not None:
            r, pi, inv = src.perm
            src = r.trig[0][0] if len(r.trig) == 1 and z3.is_int_value(z3.simplify(r.trig[0][1])) \
                and z3.simplify(r.trig[0][1]).as_long() == 0 and r.n.eq(r.trig[0][0].n) else None
        while src is not None and not src.isdict and src.derived is not None and len(src.derived.trig) == 1 \
                and z3.is_int_value(z3.simplify(src.derived.trig[0][1])) and z3.simplify(src.derived.trig[0][1]).as_long() == 0:
            src = src.derived.trig[0][0]
        if ns != {1} or src is None or not src.isdict or not getattr(src, "ksort", None):
            return L.unreadable(o)
        if o.p.base is not None or o.p.entries:
            raise Unsupported("a loop that fills a non-empty dictionary")
        b = Base(None, upto)
        b.isdict = True
        b.ksort = src.ksort
        b.derived = self.run
        b.holder = o
        it.number_base(b)
        L.key_fns(src)
        b.key_at, b.pos = (lambda p: src.key_at(pi(p))), (lambda t: inv(src.pos(t)))
        whole = z3.simplify(upto).eq(z3.simplify(src.n))

        def pair(p):
            r = self.again(p)[i]
            if len(r) != 1:
                raise Unsupported("a loop that fills a dictionary")
            k, v = r[0]
            it.path.assume(inv(pi(p)) == p)
            sk, _ = L.dict_at(src, pi(p))
            if not (it.same(k, sk) or k is sk) and not it.key_eq(k, sk):
                raise Unsupported("a loop that fills a dictionary under other keys")
            return k, v

        def find(it_, k):
            for kk, v in b.got:
                if it.key_eq(kk, k):
                    return v
            s = it.base_find(src, k)
            if s is ABSENT:
                r = ABSENT
            else:
                for kk, vv in src.got:
                    if vv is s:
                        k = kk
                        break
                p = inv(src.pos(term(k)))
                it.path.assume(z3.And(pi(p) == src.pos(term(k)), p >= 0, p < src.n))
                if not whole and not it.path.decide(p < upto):
                    r = ABSENT
                else:
                    r = it.made(b, lambda: pair(p)[1])
            b.got.append((k, r))
            if r is not ABSENT:
                for f in list(b.facts):
                    f(it, k, r)
            return r
        b.find = find

        def run(L_):
            def at(q):
                it.path.assume(inv(pi(q)) == q)
                k, _ = L.dict_at(src, pi(q))
                return k, find(it, k)
            return upto, at, [(b, z3.IntVal(0))] + ([(src, z3.IntVal(0))] if pi is inv else [])
        b.run = run
        it.touch(o)
        o.p.base = b
        it.wrote(o)

    def filtered(self, i, o, upto, ns):
        """Zero or one element per iteration: the accumulated ones, in order."""
        it, L = self.it, self.L
        if not ns <= {0, 1}:
            raise Unsupported("several elements per iteration")
        n = it.path.fresh_term(INT, "kept")
        it.path.assume(z3.And(n >= 0, n <= upto))
        src = z3.Function("src!%d" % it.nobj, INT, INT)
        dst = z3.Function("dst!%d" % it.nobj, INT, INT)
        it.nobj += 1
        b = Base(None, n)
        b.isdict = False
        b.derived = self.run
        b.holder = o

        def make(it_, idx):
            p = src(idx)
            it.path.assume(z3.And(p >= 0, p < upto, dst(p) == idx))
            for k, _ in b.got:
                it.path.assume(z3.And((k < idx) == (src(k) < p), (k == idx) == (src(k) == p)))
            r = self.again(p)[i]
            if not r:
                raise Infeasible()
            return r[0]
        b.make = make
        it.number_base(b)

        def holds(p):
            r = self.again(p)[i]
            if r:
                it.path.assume(z3.And(dst(p) >= 0, dst(p) < n, src(dst(p)) == p))
        L.fact(Run(upto, self.run.get, self.run.trig), upto, holds)
        it.touch(o)
        o.p.parts.append(Seg(b, z3.IntVal(0), n))
        it.wrote(o)
