"""Specification vocabulary of the contracts in /verif/specs.

A lemma is a plain Python function over the real code of /repo.  The same text is used three times:
  * symbolically: pyvc executes it over the AST of the real source for all inputs and proves every `ensures`;
  * at replay: a counterexample of the prover is turned into objects and the lemma runs under CPython;
  * concretely: the lemma is evaluated on generated inputs (bounded cross-check, and the stand-in where the
    prover has no answer).
This module holds the concrete meaning of the vocabulary; pyvc/engine.py holds the symbolic one.
"""
import builtins as _b


class Skip(Exception):
    """The generated input does not satisfy a `requires`."""


class Violated(Exception):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


LEMMAS = []
EVAL = {"ensures": 0}


def lemma(prop, mode="both", weight=1, needs=(), note="", heavy=False, depth=None):
    """mode: 'both' (prover + concrete evaluation), 'bounded' (concrete evaluation only; never counted as proved),
    'proof' (prover; concrete only for replay), 'shape' (prover only; the inductive step of an argument over the
    representation in use: when it fails, the argument does not apply to the code and the property rests on the other lemmas;
    never a violation), 'induction' (prover and concrete evaluation; the prover uses contracts that hold by induction or rest on the
    representation in use: only a failure that is confirmed by running the counterexample is a violation).  depth: at which depth of recursion the contract of a recursive writer stands for
    it (0: at once)."""
    def deco(f):
        f._lemma = dict(prop=prop, mode=mode, weight=weight, note=note, heavy=heavy, depth=depth)
        LEMMAS.append(f)
        return f
    return deco


def requires(c):
    if not c:
        raise Skip()


def ensures(c, label=""):
    EVAL["ensures"] += 1
    if not c:
        raise Violated(label)


def forall(xs, f):
    return _b.all(f(x) for x in xs)


def exists(xs, f):
    return _b.any(f(x) for x in xs)


def count(xs, f):
    return _b.sum(1 for x in xs if f(x))


def total(xs, f):
    return _b.sum(f(x) for x in xs)


def same_kind(a, b):
    return type(a) is type(b)


def kind_of(a):
    return type(a)


def raised(f, exc=Exception):
    """Whether calling f raises exc (any other exception propagates)."""
    try:
        f()
    except exc:
        return True
    return False


def fresh(cls):
    """A new instance of a singleton class, as its constructor makes it (bypasses the metaclass)."""
    return type.__call__(cls)


class _TypeExpr:
    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __repr__(self):
        return "%s%r" % (self.op, self.args)


class _Maker:
    def __init__(self, op):
        self.op = op

    def __getitem__(self, a):
        return _TypeExpr(self.op, *(a if isinstance(a, tuple) else (a,)))

    def __call__(self, *a):
        return _TypeExpr(self.op, *a)


List = _Maker("List")
Opt = _Maker("Opt")
Map = _Maker("Map")
OneOf = _Maker("OneOf")        # OneOf[T1, T2]: any of the types
Const = _Maker("Const")        # Const("a", "b"): one of these values
Xml = _Maker("Xml")            # Xml[T]: a T of XML 1.0 characters and whole milliseconds
Key = _TypeExpr("Key")         # any string, biased to attribute keys
XmlStr = _TypeExpr("XmlStr")   # a string of XML 1.0 characters
Word = _TypeExpr("Word")         # a string of XML 1.0 characters that is not empty and has no white space
Stamp = _TypeExpr("Stamp")     # an aware datetime with a whole-minute offset
Nat = _TypeExpr("Nat")


# ---------------------------------------------------------------- frames

_SCALAR = (bool, int, float, str, bytes)


def _val(o):
    return (type(o).__name__, repr(o)) if o is None or isinstance(o, _SCALAR) else id(o)


def _shallow(o):
    """One object: its class, items and attributes, with scalars by value and everything else by identity."""
    out = [type(o)]
    if isinstance(o, (list, tuple)):
        out.append([_val(x) for x in list.__iter__(o)] if isinstance(o, list) else [_val(x) for x in o])
    elif isinstance(o, dict):
        out.append([(_val(k), _val(v)) for k, v in dict.items(o)])
    elif isinstance(o, (set, frozenset)):
        out.append(_b.sorted((_val(x) for x in o), key=repr))
    if hasattr(o, "__dict__"):
        out.append(sorted((k, _val(v)) for k, v in vars(o).items()))
    return out


def _reach(roots):
    """Every object reachable from the roots through containers and model objects (into extensions only from a root)."""
    from opyenxes.extension.XExtension import XExtension
    seen = {}
    todo = list(roots)
    top = {id(r) for r in roots}
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, _SCALAR) or isinstance(o, type) or id(o) in seen:
            continue
        mine = type(o).__module__.startswith("opyenxes")
        if not mine and not isinstance(o, (list, dict, set, tuple, frozenset)):
            continue
        if isinstance(o, XExtension) and id(o) not in top:
            continue
        seen[id(o)] = o
        if isinstance(o, list):
            todo.extend(list.__iter__(o))
        elif isinstance(o, dict):
            todo.extend(dict.keys(o))
            todo.extend(dict.values(o))
        elif isinstance(o, (set, frozenset, tuple)):
            todo.extend(o)
        if mine and hasattr(o, "__dict__"):
            todo.extend(vars(o).values())
    return list(seen.values())


def snapshot(*roots):
    return [(o, _shallow(o)) for o in _reach(roots)]


def only_changed(snap, *objs):
    """Of the objects in the snapshot, nothing but (the content of) objs has changed."""
    allowed = {id(o) for o in objs}
    return _b.all(id(o) in allowed or _shallow(o) == was for o, was in snap)


def unchanged(snap):
    """Nothing reachable from the snapshot's roots has changed (values, order and identity of every part)."""
    return only_changed(snap)


def parts(*roots):
    """Every mutable object reachable from the roots."""
    return [o for o in _reach(roots) if not isinstance(o, (tuple, frozenset))]


def disjoint(a, b):
    """a and b share no object that can change (extensions are shared)."""
    ida = {id(x) for x in parts(a)}
    return not _b.any(id(x) in ida for x in parts(b))
