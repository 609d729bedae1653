"""C01 — attributes survive an XES write and read."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.id.XID import XID
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.model.XAttributeCollection import XAttributeCollection
import uuid


def belongs(a):
    """An attribute that was read, and all nested in it, belong to the extension of the key's prefix."""
    k = a.get_key()
    want = XExtensionManager().get_by_prefix(k[:k.index(":")]) if ":" in k else None
    ensures(a.get_extension() is want, "an attribute belongs to the extension registered for its key's prefix")
    for b in a.get_collection() if isinstance(a, XAttributeCollection) else a.get_attributes().values():
        belongs(b)


def roundtrip(a):
    g = XLog(XAttributeMap())
    g.get_attributes()[a.get_key()] = a
    t = XTrace(XAttributeMap())
    t.get_attributes()[a.get_key()] = a
    e = XEvent()
    e.get_attributes()[a.get_key()] = a
    t.append(e)
    g.append(t)
    h = parse_xes(xes_text(g))
    ensures(len(h) == 1 and len(h[0]) == 1, "one trace with one event is read back")
    for m in (h.get_attributes(), h[0].get_attributes(), h[0][0].get_attributes()):
        ensures(len(m) == 1 and a.get_key() in m, "exactly the written attribute is read back")
        ensures(same_attr(a, m[a.get_key()]), "kind, key, value and nested attributes are read back")
        belongs(m[a.get_key()])


@lemma("C01", mode="bounded", weight=4)
def any_attribute(g: Gen):
    roundtrip(g.attr(xml=True, ms=True, depth=3))


@lemma("C01")
def literal(k: XmlStr, v: XmlStr):
    roundtrip(XAttributeLiteral(k, v))


@lemma("C01")
def discrete(k: XmlStr, v: int):
    roundtrip(XAttributeDiscrete(k, v))


@lemma("C01")
def continuous(k: XmlStr, v: float):
    roundtrip(XAttributeContinuous(k, v))


@lemma("C01")
def boolean(k: XmlStr, v: bool):
    roundtrip(XAttributeBoolean(k, v))


@lemma("C01")
def timestamp(k: XmlStr, v: Stamp):
    roundtrip(XAttributeTimestamp(k, v.replace(microsecond=v.microsecond // 1000 * 1000)))


@lemma("C01")
def identity(k: XmlStr, v: uuid.UUID):
    roundtrip(XAttributeID(k, XID(v)))


@lemma("C01", mode="bounded", weight=3)
def maps(g: Gen):
    m = g.attrmap(xml=True, ms=True, depth=2, n=g.r.choice([2, 3, 4, 8]))
    log = XLog(m)
    ensures(same_map(m, parse_xes(xes_text(log)).get_attributes()), "attributes keep their order and content")


# ---- any attributes, nested to any depth: by induction over the nesting.  In these lemmas what is nested in the attributes at hand
# is written and read by contract (see pyvc/sidecar.py), and the lemmas together are that contract.

def back_of(m, place):
    g, t, e = XLog(XAttributeMap()), XTrace(XAttributeMap()), XEvent()
    t.append(e)
    g.append(t)
    (g, t, e)[place].set_attributes(m)
    h = parse_xes(xes_text(g))
    return (h, h[0], h[0][0])[place].get_attributes()


@lemma("C01", mode="induction", heavy=True, depth=1)
def map_in_log(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m, 0)), "the attributes of a log keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=1)
def map_in_trace(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m, 1)), "the attributes of a trace keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=1)
def map_in_event(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m, 2)), "the attributes of an event keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=1)
def globals_back(gs: List[Xml[XAttribute]]):
    log = XLog(XAttributeMap())
    for a in gs:
        log.get_global_event_attributes().append(a)
    back = parse_xes(xes_text(log))
    ensures(same_attrs(gs, back.get_global_event_attributes()), "global attributes keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=2)
def map_nested(m: Xml[XAttributeMap]):
    a = XAttributeLiteral("k", "v")
    a.set_attributes(m)
    n = XAttributeMap()
    n["k"] = a
    ensures(same_map(m, back_of(n, 0)["k"].get_attributes()), "the attributes of an attribute keep their order and content")


def members_back(a):
    n = XAttributeMap()
    n["k"] = a
    ensures(same_attrs(a.get_collection(), back_of(n, 0)[a.get_key()].get_collection()), "the members keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=2)
def list_nested(xs: List[Xml[XAttribute]]):
    a = XAttributeList("k")
    for x in xs:
        a.add_to_collection(x)
    members_back(a)


@lemma("C01", mode="induction", heavy=True, depth=2)
def container_nested(xs: List[Xml[XAttribute]]):
    a = XAttributeContainer("k")
    for x in xs:
        a.add_to_collection(x)
    members_back(a)


def global_back(a):
    log = XLog(XAttributeMap())
    log.get_global_event_attributes().append(a)
    return parse_xes(xes_text(log)).get_global_event_attributes()[0]


@lemma("C01", mode="induction", heavy=True, depth=2)
def map_nested_in_global(m: Xml[XAttributeMap]):
    a = XAttributeLiteral("k", "v")
    a.set_attributes(m)
    ensures(same_map(m, global_back(a).get_attributes()), "the attributes of a global attribute keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=2)
def list_nested_in_global(xs: List[Xml[XAttribute]]):
    a = XAttributeList("k")
    for x in xs:
        a.add_to_collection(x)
    ensures(same_attrs(a.get_collection(), global_back(a).get_collection()), "the members keep their order and content")


@lemma("C01", mode="induction", heavy=True, depth=2)
def container_nested_in_global(xs: List[Xml[XAttribute]]):
    a = XAttributeContainer("k")
    for x in xs:
        a.add_to_collection(x)
    ensures(same_attrs(a.get_collection(), global_back(a).get_collection()), "the members keep their order and content")


@lemma("C01", depth=2)
def kinds_nested(v: XmlStr, n: int, u: uuid.UUID):
    m = XAttributeMap()
    for a in (XAttributeLiteral("a", "x"), XAttributeDiscrete("b", 1), XAttributeContinuous("c", 1.5), XAttributeBoolean("d", True),
              XAttributeID("e", XID(u))):
        a.get_attributes()["k"] = XAttributeLiteral("k", v)
        a.get_attributes()["n"] = XAttributeDiscrete("n", n)
        m[a.get_key()] = a
    ensures(same_map(m, back_of(m, 0)), "attributes of every kind keep what is nested in them")


@lemma("C01", mode="induction", depth=1)
def list_back(a: Xml[XAttributeList]):
    roundtrip(a)


@lemma("C01", mode="induction", depth=1)
def container_back(a: Xml[XAttributeContainer]):
    roundtrip(a)
