"""Concrete evaluation of lemmas on the real code under CPython (bounded cross-check, search for failing inputs)."""
import contextlib
import importlib
import inspect
import io
import os
import signal
import sys
import time
import traceback

REPO_SRC = os.environ.get("OPYENXES_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.abspath(__file__))


class CaseTimeout(BaseException):
    pass


def setup():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO_SRC):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.setrecursionlimit(4000)
    os.environ["TZ"] = "<-0330>+3:30"      # nothing may depend on the local zone
    time.tzset()


def load(prop):
    """Imports the spec module of a property and returns its lemmas."""
    import vspec
    mod = importlib.import_module("specs." + prop.lower())
    return [f for f in vspec.LEMMAS if f._lemma["prop"] == prop and f.__module__ == mod.__name__]


def _alarm(*_):
    raise CaseTimeout()


def describe(x, depth=3):
    """Readable text of an input."""
    n = type(x).__name__
    if n == "Gen":
        return "generated: " + "; ".join(describe(v, 5) for v in getattr(x, "made", []))
    if x is None or isinstance(x, (bool, int, float, str)):
        return repr(x) if len(repr(x)) < 200 else repr(x)[:200] + "..."
    if n in ("datetime", "UUID"):
        return str(x)
    if n.endswith("Extension") and hasattr(x, "get_prefix"):
        return "<extension %s>" % x.get_prefix()
    if depth == 0:
        return "<%s>" % n
    try:
        d = dict(vars(x)) if hasattr(x, "__dict__") and type(x).__module__.startswith("opyenxes") else {}
        fs = ", ".join("%s=%s" % (k.split("__")[-1], describe(v, depth - 1)) for k, v in d.items() if v is not None and v != {} and v != '' and k != 'relative_zone')
        if isinstance(x, list):
            body = "[" + ", ".join(describe(e, depth - 1) for e in list.__iter__(x)) + "]"
        elif isinstance(x, dict):
            body = "{" + ", ".join("%s: %s" % (describe(k, depth - 1), describe(v, depth - 1)) for k, v in dict.items(x)) + "}"
        elif isinstance(x, tuple):
            body = "(" + ", ".join(describe(e, depth - 1) for e in x) + ")"
        else:
            body = "" if d else repr(x)
        if n in ("list", "dict", "tuple"):
            return body
        return "%s(%s%s)" % (n, body, (", " if body and fs else "") + fs)
    except Exception as e:
        return "<%s: %s>" % (n, e)


def in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO_SRC):
            return True
    return False


def run_case(f, seed, lits, size=1.0, args=None, case_limit=20):
    """Returns (status, label, argtext): status in ok / skip / violated / broken."""
    import gens
    import vspec
    g = gens.Gen(seed, lits, size)
    text = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case_limit)
    sink = io.StringIO()
    building = True
    before = vspec.EVAL["ensures"]
    try:
        with contextlib.redirect_stdout(sink):
            if args is None:
                args = g.arguments([p.annotation for p in inspect.signature(f).parameters.values()])
            building = False
            text = [describe(a) for a in args]
            f(*args)
        return ("ok" if vspec.EVAL["ensures"] > before else "skip"), None, text
    except vspec.Skip:
        return "skip", None, text
    except vspec.Violated as e:
        return "violated", e.label, text
    except CaseTimeout:
        return "violated", "did not return within %d s" % case_limit, text
    except RecursionError as e:
        return "violated", "unbounded recursion", text
    except Exception as e:
        tb = e.__traceback__
        where = traceback.extract_tb(tb)[-1]
        label = "raises %s: %s (at %s:%s)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
        if in_repo(tb) or not building:  # the lemmas evaluate without exceptions on a tree where they hold
            return "violated", ("building the input " if building else "") + label, text
        return "broken", label + "\n" + traceback.format_exc(), text
    finally:
        if text is not None and args:
            text[:] = [describe(a) if type(a) is gens.Gen else t for a, t in zip(args, text)]
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def search(f, seed, budget_s, max_cases, lits, start=0, step=1):
    """Evaluates f on generated inputs; stops at the first violation."""
    t0 = time.time()
    st = {"cases": 0, "ok": 0, "skip": 0, "distinct": set(), "samples": []}
    i = start
    while st["cases"] < max_cases and time.time() - t0 < budget_s:
        s = "%s:%s:%d" % (seed, f.__name__, i)
        i += step
        size = 1.0 if st["cases"] % 10 else 3.0
        status, label, text = run_case(f, s, lits, size)
        st["cases"] += 1
        if status == "ok":
            st["ok"] += 1
            st["distinct"].add(hash(tuple(text or ())))
            if len(st["samples"]) < 2 and text:
                st["samples"].append([t[:300] for t in text])
        elif status == "skip":
            st["skip"] += 1
        else:
            st["bad"] = dict(status=status, label=label, args=text, seed=s, size=size)
            break
    st["distinct"] = len(st["distinct"])
    return st
