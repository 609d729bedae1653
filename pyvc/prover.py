"""Proves a lemma: explores every path of it over the real source and discharges the obligations of each."""
import inspect
import os
import sys
import time
import traceback
from .program import Program, Unsupported
from .sym import Path, Infeasible, PathEnd
from .interp import Interp, PyExc, FuncVal
from .builtins_ import Builtins
from .loops import Loops
from .inputs import Inputs
from .sidecar import Sidecar

REPO_SRC = os.environ.get("OPYENXES_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OutOfTime(Exception):
    pass


class Ctl:
    def __init__(self, budget):
        self.t0 = time.time()
        self.budget = budget
        self.solver_s = 0.0
        self.checks = 0
        self.assumptions = set()
        self.contracts = set()
        self.cache = {}
        self.nodes = {}
        self.roles = {}
        self.plain = set()
        self.steps = 0
        self.loops = 0

    def tick(self):
        if time.time() - self.t0 > self.budget:
            raise OutOfTime()

    def assume(self, text):
        self.assumptions.add(text)


_PROG = {}


def program():
    if "p" not in _PROG:
        p = Program(REPO_SRC, VERIF)
        p.load_package("opyenxes")
        p.link()
        _PROG["p"] = p
    return _PROG["p"]


def run_path(prog, f, fi, prefix, ctl):
    path = Path(prefix, ctl)
    it = Interp(prog, path, ctl, Sidecar(ctl, fi, f._lemma["mode"], f._lemma["prop"], f._lemma["depth"]))
    it.current_exc = []
    it.bi = Builtins(it)
    it.loops = Loops(it)
    inp = Inputs(it)
    status, why, args = "done", None, []
    try:
        for name, p in inspect.signature(f).parameters.items():
            args.append(inp.make(p.annotation, name))
        it.args = args
        it.call_func(FuncVal(fi), list(args), {})
    except Infeasible:
        status = "infeasible"
    except PathEnd:
        status = "end"
    except PyExc as e:
        # an exception that leaves the lemma: the path must not be feasible
        if it.quiet:
            status = "end"
        else:
            st, model = path.valid(False)
            it.obligations.append(dict(label="raises %s: %s (at %s)" % (e.cls.name, e.msg, e.where), status=st, model=model, line=it.line,
                                       lossy=path.lossy, exception=True))
            status = "raised"
    return it, path, status, args


def prove(prop, name, budget=60, verbose=False, replay=True):
    import concrete
    concrete.setup()
    f = [x for x in concrete.load(prop) if x.__name__ == name][0]
    sys.setrecursionlimit(20000)
    prog = program()
    mod = prog.load("specs." + prop.lower())
    prog.link()
    fi = prog.lookup(mod, name)
    ctl = Ctl(budget)
    out = dict(status="proved", why=None, obligations={}, witness=None, functions=set(), paths=0, infeasible=0)
    stack = [[]]
    obs = out["obligations"]
    bad = None
    try:
        while stack:
            prefix = stack.pop()
            ctl.tick()
            it, path, status, args = run_path(prog, f, fi, prefix, ctl)
            for i in range(len(prefix), len(path.trace)):      # the deepest alternative is explored next
                c, alts = path.trace[i]
                base = [x for x, _ in path.trace[:i]]
                for a in reversed(alts):
                    stack.append(base + [a])
            out["paths"] += 1
            out["infeasible"] += status == "infeasible"
            out["functions"] |= it.functions
            for o in it.obligations:
                d = obs.setdefault(o["label"], dict(label=o["label"], status="discharged", paths=0, where="line %s" % o["line"]))
                d["paths"] += 1
                if o["status"] != "discharged":
                    if d["status"] != "failed":
                        d["status"] = o["status"]
                    d["lossy"] = o["lossy"]
                    if replay and out["witness"] is None and o["model"] is not None:
                        w = try_replay(f, args, o["model"], path)
                        if w is not None:
                            out["witness"] = w
                            d["status"] = "failed"
                    bad = d
            if verbose and status not in ("infeasible",):
                print("path", prefix, status, [(o["label"], o["status"]) for o in it.obligations if o["status"] != "discharged"])
            if out["witness"] is not None:
                break
    except OutOfTime:
        out["status"], out["why"] = "not proved", "budget of %d s used up after %d paths" % (budget, out["paths"])
    except Unsupported as e:
        out["status"], out["why"] = "not proved", "outside the verifier's reach: %s" % e
    except RecursionError:
        out["status"], out["why"] = "not proved", "recursion"
    except Exception as e:
        out["status"], out["why"] = "not proved", "engine: %s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:-1])
    if bad is not None:
        out["status"] = "not proved"
        out["why"] = "obligation %s: %s" % (bad["status"], bad["label"])
    elif out["status"] == "proved" and not obs:
        out["status"], out["why"] = "not proved", "vacuous: no obligation was reached"
    out["obligations"] = list(obs.values())
    out["functions"] = sorted(out["functions"])
    out["assumptions"] = sorted(ctl.assumptions)
    out["contracts"] = sorted(ctl.contracts)
    out["trusted"] = []
    out["solver_s"] = round(ctl.solver_s, 2)
    out["checks"] = ctl.checks
    out["loops"] = ctl.loops
    out["wall_s"] = round(time.time() - ctl.t0, 2)
    return out


def try_replay(f, args, model, path):
    try:
        from . import decode
        import concrete
        vals = decode.build_all(args, model, path)
        text = decode.portable(vals)
        st, label, desc = concrete.run_case(f, 0, ((), ()), args=vals)
        if st == "violated":
            return dict(label=label, args=desc, model=text)
    except Exception as e:
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    return None


if __name__ == "__main__":
    import json
    r = prove(sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 60, verbose="-v" in sys.argv)
    print(r["status"], r["why"], "paths", r["paths"], "infeasible", r["infeasible"], "solver", r["solver_s"], "wall", r["wall_s"], "checks", r["checks"])
    for o in r["obligations"]:
        print("  ", o["status"], o["paths"], o["label"])
    if "-v" in sys.argv:
        print(r["functions"], r["assumptions"], r["witness"])
