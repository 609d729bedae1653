"""C11 — attribute summaries: keys, frequencies, types, extensions and prototypes of the registered attributes."""
from vspec import *
from gens import Gen
from urllib.parse import urlparse
from specs.common import *
from opyenxes.extension.XExtension import XExtension
from opyenxes.model.XAttribute import XAttribute
from opyenxes.model.XLog import XLog
from opyenxes.model.XElement import XElement
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.info.XAttributeInfo import XAttributeInfo
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.utils.XAttributeUtils import XAttributeUtils

ORDER = KINDS


def is_prototype(p, a):
    """p has the kind, key and extension of a, and the default value of its kind."""
    ensures(kind(p) is kind(a) and p.get_key() == a.get_key() and p.get_extension() is a.get_extension(),
            "a prototype has the kind, key and extension of the attribute")
    ensures(copied_map(a.get_attributes(), p.get_attributes()), "a prototype has copies of the nested attributes")
    if isinstance(p, XAttributeLiteral):
        ensures(p.get_value() == "UNKNOWN", "the default text")
    elif isinstance(p, XAttributeBoolean):
        ensures(p.get_value() is True, "the default truth value")
    elif isinstance(p, XAttributeContinuous):
        ensures(p.get_value() == 0.0 and isinstance(p.get_value(), float), "the default real number")
    elif isinstance(p, XAttributeDiscrete):
        ensures(p.get_value() == 0 and isinstance(p.get_value(), int), "the default integer")
    elif isinstance(p, XAttributeTimestamp):
        ensures(p.get_value_millis() == 0, "the default timestamp")


@lemma("C11")
def prototype(a: XAttribute):
    s = snapshot(a)
    p = XAttributeUtils.derive_prototype(a)
    ensures(p is not a, "a prototype is a new attribute")
    is_prototype(p, a)
    ensures(unchanged(s), "deriving a prototype leaves the attribute alone")


@lemma("C11")
def prototype_id(a: XAttributeID):
    p, q = XAttributeUtils.derive_prototype(a), XAttributeUtils.derive_prototype(a)
    ensures(not (p.get_value() == a.get_value()) and not (p.get_value() == q.get_value()), "prototypes of IDs have new IDs")


@lemma("C11")
def types(a: XAttribute):
    t = XAttributeUtils.get_type(a)
    ensures(t is kind(a), "the type is the kind of the attribute")
    names = {XAttributeLiteral: "LITERAL", XAttributeDiscrete: "DISCRETE", XAttributeContinuous: "CONTINUOUS", XAttributeBoolean: "BOOLEAN",
             XAttributeTimestamp: "TIMESTAMP", XAttributeID: "ID", XAttributeList: "LIST", XAttributeContainer: "CONTAINER"}
    ensures(XAttributeUtils.get_type_string(a) == names[kind(a)], "the name of the type")


def check(info, seq):
    """info summarises the attributes of seq (and nothing else)."""
    first = {}
    n = {}
    for a in seq:
        first.setdefault(a.get_key(), a)
        n[a.get_key()] = n.get(a.get_key(), 0) + 1
    ensures(sorted(info.get_attribute_keys()) == sorted(n), "the keys")
    ps = {p.get_key(): p for p in info.get_attributes()}
    ensures(len(info.get_attributes()) == len(n) and set(ps) == set(n), "one prototype per key")
    for k, a in first.items():
        ensures(info.get_frequency(k) == n[k] and info.get_frequency(a) == n[k], "the frequency of a key")
        ensures(info.get_relative_frequency(k) == n[k] / len(seq) and info.get_relative_frequency(a) == n[k] / len(seq), "the relative frequency")
        is_prototype(ps[k], a)
    if seq:
        ensures(abs(sum(info.get_relative_frequency(k) for k in n) - 1) < 1e-9, "relative frequencies add up to one")
    for t in KINDS:
        mine = {k for k, a in first.items() if kind(a) is t}
        ensures(sorted(info.get_keys_for_type(t)) == sorted(mine), "the keys of a type")
        ensures(sorted(id(p) for p in info.get_attributes_for_type(t)) == sorted(id(ps[k]) for k in mine), "the attributes of a type")
    exts = [a.get_extension() for a in first.values()] + [None]
    for x in exts:
        mine = {k for k, a in first.items() if a.get_extension() is x}
        ensures(sorted(info.get_keys_for_extension(x)) == sorted(mine), "the keys of an extension")
        ensures(sorted(id(p) for p in info.get_attributes_for_extension(x)) == sorted(id(ps[k]) for k in mine), "the attributes of an extension")
    ensures(sorted(info.get_keys_without_extension()) == sorted(k for k, a in first.items() if a.get_extension() is None),
            "the keys without an extension")
    ensures(len(info.get_attributes_without_extension()) == len(info.get_keys_without_extension()), "the attributes without an extension")


@lemma("C11", mode="bounded", weight=3)
def registered(g: Gen):
    info = XAttributeInfo()
    check(info, [])
    seq = []
    keys = [g.key() for _ in range(g.r.choice([1, 2, 3, 6]))]
    # extensions are told apart by their URI alone
    alike = [XExtension(n, p, urlparse("http://e.x/" + u)) for n, p, u in (("N", "n", "a"), ("N", "n", "b"), ("M", "m", "c"))] \
        if g.chance(0.4) else []
    for _ in range(g.r.choice([1, 2, 4, 8, 12])):
        a = g.attr(key=g.r.choice(keys), depth=g.r.choice([0, 0, 1]))
        if alike and g.chance(0.6):
            a = XAttributeLiteral(a.get_key(), "v", g.r.choice(alike))
        s = snapshot(a)
        info.register(a)
        ensures(unchanged(s), "registering leaves the attribute alone")
        seq.append(a)
    check(info, seq)


def nested(a):
    out = []
    for b in a.get_attributes().values():
        out.append(b)
        out += nested(b)
    return out


@lemma("C11", mode="bounded", weight=2)
def of_a_log(g: Gen):
    log = g.log(depth=2, full=False)
    info = XLogInfo.create(log)
    check(info.get_log_attribute_info(), list(log.get_attributes().values()))
    check(info.get_trace_attribute_info(), [a for t in log for a in t.get_attributes().values()])
    check(info.get_event_attribute_info(), [a for t in log for e in t for a in e.get_attributes().values()])
    check(info.get_meta_attribute_info(), [b for x in [log] + [y for t in log for y in [t] + list(t)]
                                           for a in x.get_attributes().values() for b in nested(a)])


@lemma("C11")
def two_registrations(a: XAttribute, b: XAttribute):
    info = XAttributeInfo()
    info.register(a)
    info.register(b)
    if a.get_key() == b.get_key():
        ensures(info.get_frequency(a.get_key()) == 2 and len(info.get_attribute_keys()) == 1, "equal keys are counted together")
        ensures(len(info.get_attributes_for_type(kind(a))) == 1, "the first attribute decides the type")
        ensures(kind(a) is kind(b) or len(info.get_attributes_for_type(kind(b))) == 0, "later attributes add no type")
    else:
        ensures(info.get_frequency(a.get_key()) == 1 and info.get_frequency(b.get_key()) == 1, "each key is counted")
        ensures(len(info.get_attribute_keys()) == 2, "both keys are known")
        ensures(info.get_frequency(a) == 1 and info.get_frequency(b) == 1, "the frequency of an attribute is that of its key")
        ensures(len(info.get_attributes_for_type(kind(a))) == (2 if kind(a) is kind(b) else 1), "the types are kept apart")


# ---- any history: one more registration in an arbitrary state (key -> prototype, key -> frequency, total)

@lemma("C11", mode="shape")
def one_more(m: XAttributeMap, f: Map[Key, int], total: Nat, a: XAttribute, q: str):
    info = XAttributeInfo()
    info._XAttributeInfo__key_map = m
    info._XAttributeInfo__frequencies = f
    info._XAttributeInfo__total_frequencies = total
    k = a.get_key()
    requires(all((x in m) == (x in f) for x in (k, q)))
    requires(k not in f or f[k] > 0)
    n, old, other, was = len(info.get_attributes()), f.get(k), f.get(q), m.get(q)
    s = snapshot(a)
    info.register(a)
    ensures(unchanged(s), "registering an attribute leaves it alone")
    ensures(info.get_frequency(k) == (1 if old is None else old + 1) and info.get_frequency(a) == info.get_frequency(k), "the key is counted once more")
    ensures(q == k or info.get_frequency(q) == other, "no other key is counted")
    ensures(info.get_relative_frequency(k) == info.get_frequency(k) / (total + 1), "the share of all registrations")
    ensures(len(info.get_attributes()) == (n + 1 if old is None else n), "a new key is listed")
    if old is None:
        p = m[k]
        is_prototype(p, a)
        ensures(info.get_attributes_for_type(kind(a)) == (p,), "its prototype is listed under its type")
        if a.get_extension() is not None:
            ensures(info.get_attributes_for_extension(a.get_extension()) == (p,) and info.get_attributes_without_extension() == (), "and its extension")
        else:
            ensures(info.get_attributes_without_extension() == (p,), "or under no extension")
    else:
        ensures(info.get_attributes_for_type(kind(a)) == () and info.get_attributes_without_extension() == (), "a known key is listed once")
    ensures(q == k or m.get(q) is was, "no other prototype is touched")


class Seen:
    def __init__(self, *given):
        self.seen = []

    def harmonize_indices(self):
        pass

    def register(self, x):
        self.seen.append(x)


class Level(XLogInfo):
    """Writes down which elements are descended into below a given one."""
    def setup(self):
        self.top = None
        self.below = []

    def register_attributes(self, info, x):
        if x is self.top:
            super().register_attributes(info, x)
        else:
            self.below.append((info, x))


class Flow(XLogInfo):
    """Writes down whose attributes are registered where."""
    def setup(self):
        self.flow = []
        super().setup()

    def register_attributes(self, info, x):
        self.flow.append((info, x))


@lemma("C11", mode="shape")
def attributes_of_an_element(e: XElement):
    x = Level(XLog(XAttributeMap()), XEventNameClassifier(), None)
    x.top = e
    info = Seen()
    x.register_attributes(info, e)
    want = list(e.get_attributes().values())
    ensures(len(info.seen) == len(want) and all(a is b for a, b in zip(info.seen, want)), "every attribute of an element is registered, once")
    ensures(len(x.below) == len(want) and all(p[0] is x.get_meta_attribute_info() and p[1] is a for p, a in zip(x.below, want)),
            "and the attributes below it are registered as meta attributes")


@lemma("C11", mode="shape")
def attributes_of_a_log(t: XTrace):
    import opyenxes.info.XLogInfo as module
    module.XEventClasses = module.XTimeBounds = Seen
    g = XLog(XAttributeMap())
    g.append(t)
    x = Flow(g, XEventNameClassifier(), None)
    ensures(len(x.flow) == 2 + len(t) and x.flow[0][0] is x.get_log_attribute_info() and x.flow[0][1] is g
            and x.flow[1][0] is x.get_trace_attribute_info() and x.flow[1][1] is t, "the attributes of the log and the trace")
    ensures(all(p[0] is x.get_event_attribute_info() and p[1] is e for p, e in zip(x.flow[2:], t)), "the attributes of every event, once")
