"""C08 — event classes: one class per identity, counted, indexed in order."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XLog import XLog
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.classification.XEventClass import XEventClass
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier


def tally(ids):
    n = {}
    for i in ids:
        n[i] = n.get(i, 0) + 1
    return n


def consistent(ec, c, ids):
    n = tally(ids)
    classes = list(ec.get_classes())
    ensures(len(ec) == len(n) and len(classes) == len(n), "one class per distinct identity")
    ensures({k.get_id(): k.size() for k in classes} == n, "every class counts the events of its identity")
    ensures(sum(k.size() for k in classes) == len(ids), "every event is counted once")
    ensures(sorted(k.get_index() for k in classes) == list(range(len(n))), "the indices are 0..n-1, each used once")
    for k in classes:
        ensures(ec.get_by_identity(k.get_id()) is k and ec.get_by_index(k.get_index()) is k, "lookups by identity and by index agree")
    ensures(ec.get_by_index(len(n)) is None and ec.get_by_index(-1) is None, "no class outside the index range")
    ensures(ec.get_classifier() is c, "the classifier")


@lemma("C08", mode="bounded", weight=3)
def derived(g: XLog, c: XEventAttributeClassifier, other: XEvent):
    s = snapshot(g, c)
    ec = XEventClasses.derive_event_classes(c, g)
    ensures(unchanged(s), "deriving classes changes neither the log nor the classifier")
    ids = [c.get_class_identity(e) for t in g for e in t]
    consistent(ec, c, ids)
    for i, k in enumerate(sorted(set(ids))):
        ensures(ec.get_by_identity(k).get_index() == i, "classes are indexed in the order of their identities")
    for t in g:
        for e in t:
            ensures(ec.get_class_of(e) is ec.get_by_identity(c.get_class_identity(e)), "every event finds its class")
    i = c.get_class_identity(other)
    ensures(i in set(ids) or ec.get_class_of(other) is None, "an event of no class finds none")


@lemma("C08", mode="bounded", weight=2)
def registering(g: Gen):
    c = g.classifier()
    ec = XEventClasses(c)
    ids = []
    for _ in range(g.r.choice([1, 2, 4, 6])):
        x = g.r.randrange(5)
        if x == 0:
            e = g.event()
            ec.register(e)
            ids.append(c.get_class_identity(e))
        elif x == 1:
            t = g.trace()
            ec.register(t)
            ids += [c.get_class_identity(e) for e in t]
        elif x == 2:
            s = g.string()
            ec.register(s)
            ids.append(s)
        elif x == 3:
            ec.harmonize_indices()
            for i, k in enumerate(sorted(set(ids))):
                ensures(ec.get_by_identity(k).get_index() == i, "harmonised classes are indexed in the order of their identities")
        else:
            log = g.log(full=False)
            ec.register(log)
            ids += [c.get_class_identity(e) for t in log for e in t]
        consistent(ec, c, ids)


@lemma("C08")
def first_registration(n: str, k: Key, i: str, j: str):
    requires(i != j)
    ec = XEventClasses(XEventAttributeClassifier(n, [k]))
    ec.register(j)
    ec.register(i)
    ec.register(j)
    a, b = ec.get_by_identity(j), ec.get_by_identity(i)
    ensures(len(ec) == 2, "one class per identity")
    ensures(a.size() == 2 and b.size() == 1, "sizes count registrations")
    ensures(a.get_index() == 0 and b.get_index() == 1, "new classes are numbered in order of appearance")
    ec.harmonize_indices()
    a, b = ec.get_by_identity(j), ec.get_by_identity(i)
    ensures(len(ec) == 2 and a.size() == 2 and b.size() == 1, "harmonising keeps classes and sizes")
    ensures((a.get_index() < b.get_index()) == (j < i), "harmonised indices follow the order of the identities")
    ensures(a.get_index() + b.get_index() == 1 and a.get_index() * b.get_index() == 0, "harmonised indices are 0 and 1")
    ensures(ec.get_by_index(a.get_index()) is a and ec.get_by_index(b.get_index()) is b, "lookup by index")


def of(c, m):
    """Event classes in the state m (identity -> class)."""
    ec = XEventClasses(c)
    ec._XEventClasses__class_map = m
    return ec


def seen(ec, q):
    k = ec.get_by_identity(q)
    return None if k is None else (k.get_id(), k.size(), k.get_index())


# ---- any history: one more registration in an arbitrary state (an entry of the class map is the class of its key)

@lemma("C08", mode="shape")
def one_more(c: XEventAttributeClassifier, m: Map[Key, XEventClass], i: str, q: str):
    ec = of(c, m)
    requires(all(k not in m or m[k].get_id() == k for k in (i, q)))
    n, x, y = len(ec), seen(ec, i), seen(ec, q)
    k = ec.get_by_identity(i)
    ec.register(i)
    z = seen(ec, i)
    if x is None:
        ensures(z == (i, 1, n) and len(ec) == n + 1, "a new identity gets a class of size 1 and the next index")
    else:
        ensures(z == (i, x[1] + 1, x[2]) and len(ec) == n and ec.get_by_identity(i) is k, "a known identity is counted in its class")
    ensures(q == i or seen(ec, q) == y, "no other class is touched")
    ensures(ec.get_classifier() is c, "the classifier")


@lemma("C08", mode="shape")
def one_more_event(c: XEventAttributeClassifier, m: Map[Key, XEventClass], e: XEvent, q: str):
    ec = of(c, m)
    i = c.get_class_identity(e)
    requires(all(k not in m or m[k].get_id() == k for k in (i, q)))
    n, x, y = len(ec), seen(ec, i), seen(ec, q)
    s = snapshot(e)
    ec.register(e)
    ensures(seen(ec, i) == ((i, 1, n) if x is None else (i, x[1] + 1, x[2])), "an event is counted in the class of its identity")
    ensures(ec.get_class_of(e) is ec.get_by_identity(i), "an event finds its class")
    ensures(len(ec) == (n + 1 if x is None else n) and (q == i or seen(ec, q) == y), "no other class is touched")
    ensures(unchanged(s), "registering an event does not change it")


@lemma("C08", mode="shape")
def lookups(c: XEventAttributeClassifier, m: Map[Key, XEventClass], q: str, j: int, e: XEvent):
    ec = of(c, m)
    k = ec.get_by_index(j)
    ensures(k is None or k.get_index() == j, "lookup by index gives a class of that index")
    ensures(k is not None or q not in m or m[q].get_index() != j, "or none has it")
    ensures(ec.get_by_identity(q) is m.get(q) and ec.get_class_of(e) is m.get(c.get_class_identity(e)), "lookup by identity and event")


@lemma("C08", mode="shape")
def harmonized(c: XEventAttributeClassifier, m: Map[Key, XEventClass], q: str, r: str):
    ec = of(c, m)
    requires(all(m[k].get_id() == k for k in m))
    n, x, y = len(ec), seen(ec, q), seen(ec, r)
    ec.harmonize_indices()
    ensures(len(ec) == n, "harmonising keeps the number of classes")
    z, w = seen(ec, q), seen(ec, r)
    ensures((z is None) == (x is None) and (z is None or (z[:2] == x[:2] and 0 <= z[2] < n)), "and classes and sizes; indices are 0..n-1")
    ensures(z is None or w is None or (z[2] < w[2]) == (q < r), "in the order of the identities")


class Recorder(XEventClasses):
    """Writes down what is registered, from a level of the log downwards."""
    def __init__(self, c, level):
        super().__init__(c)
        self.level = level
        self.seen = []

    def register(self, x):
        if isinstance(x, self.level):
            self.seen.append(x)
        else:
            super().register(x)


@lemma("C08", mode="shape")
def parts(c: XEventAttributeClassifier, t: XTrace, g: XLog):
    r = Recorder(c, XEvent)
    r.register(t)
    ensures(len(r.seen) == len(t) and all(a is b for a, b in zip(r.seen, t)), "a trace is registered event by event")
    r = Recorder(c, XTrace)
    r.register(g)
    ensures(len(r.seen) == len(g) and all(a is b for a, b in zip(r.seen, g)), "a log is registered trace by trace")


@lemma("C08", mode="bounded")
def rejects(n: int):
    for bad in (n, None, 1.5, [], XEventClass("a", 0)):
        ensures(raised(lambda: XEventClasses(XEventAttributeClassifier("c", ["k"])).register(bad), TypeError), "other elements are rejected")


@lemma("C08", mode="bounded")
def many_classes(n: Nat, i: Nat, j: Nat, e: XEvent, g: Gen):
    n = 1 + n % g.r.choice([300, 300, 600, 1300])
    c = XEventAttributeClassifier("c", ["k"])
    log = XLog(XAttributeMap())
    log.append(XTrace(XAttributeMap()))
    xs = ["%x" % (x % n) for x in range(n + i % 300)]
    g.r.shuffle(xs)
    for x in xs:
        e = XEvent()
        e.get_attributes()["k"] = XAttributeLiteral("k", x)
        log[0].append(e)
    ec = XEventClasses.derive_event_classes(c, log)
    ensures(len(ec) == n, "one class per distinct identity")
    ids = sorted(set(xs))
    for x in (0, j % n, n - 1):
        k = ec.get_by_index(int(str(x)))
        ensures(k is not None and k.get_index() == x and k.get_id() == ids[x], "every index leads to its class")
        ensures(k.size() == xs.count(ids[x]) and ec.get_by_identity(ids[x]) is k, "which counts the events of its identity")
    ec = XEventClasses(c)
    ec.register(log)
    first = list(dict.fromkeys(xs))
    ensures(all(ec.get_by_identity(x).get_index() == i for i, x in enumerate(first)), "classes are numbered as they are found")
