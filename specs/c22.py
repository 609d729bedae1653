"""C22 — new elements are independent: nothing is shared between elements that were made separately."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributable import XAttributable
from opyenxes.model.XElement import XElement
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.extension.XExtension import XExtension
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from specs.c18 import ET, sub, parse_mxml, plain_text


@lemma("C22")
def new_events(k: Key, v: str):
    e, f = XEvent(), XEvent()
    ensures(len(e.get_attributes()) == 0 and not e.has_attributes(), "a new event has no attributes")
    ensures(not (e == f) and not (e.get_id() == f.get_id()), "new events are different events")
    e.get_attributes()[k] = XAttributeLiteral(k, v)
    ensures(len(f.get_attributes()) == 0 and len(XEvent().get_attributes()) == 0, "an attribute of one event is not one of another")
    ensures(len(e.get_attributes()) == 1 and e.has_attributes(), "the event has the attribute")


@lemma("C22")
def new_traces(k: Key, v: str):
    t, u = XTrace(XAttributeMap()), XTrace(XAttributeMap())
    t.append(XEvent())
    t.get_attributes()[k] = XAttributeLiteral(k, v)
    ensures(len(u) == 0 and len(u.get_attributes()) == 0, "traces share neither events nor attributes")
    ensures(len(t) == 1 and len(t.get_attributes()) == 1, "the trace has what was added")


@lemma("C22")
def new_logs(k: Key, v: str, c: XEventAttributeClassifier, x: XExtension):
    g, h = XLog(XAttributeMap()), XLog(XAttributeMap())
    g.append(XTrace(XAttributeMap()))
    g.get_attributes()[k] = XAttributeLiteral(k, v)
    g.get_classifiers().append(c)
    g.get_extensions().add(x)
    g.get_global_event_attributes().append(XAttributeLiteral(k, v))
    g.get_global_trace_attributes().append(XAttributeLiteral(k, v))
    g.set_features(k, v)
    g.set_info(c, XLogInfo.create(h, c))
    ensures(len(h) == 0 and len(h.get_attributes()) == 0, "logs share neither traces nor attributes")
    ensures(len(h.get_classifiers()) == 0 and len(h.get_extensions()) == 0, "logs share neither classifiers nor extensions")
    ensures(len(h.get_global_event_attributes()) == 0 and len(h.get_global_trace_attributes()) == 0, "logs share no global attributes")
    ensures(len(h.get_features()) == 0 and h.get_info(c) is None, "logs share neither features nor summaries")
    ensures(len(g.get_global_event_attributes()) == 1 and len(g.get_global_trace_attributes()) == 1, "event and trace globals are kept apart")


@lemma("C22")
def new_attributes(k: Key, v: str, x: Opt[XExtension]):
    for a, b in ((XAttributeLiteral(k, v, x), XAttributeLiteral(k, v, x)), (XAttributeDiscrete(k, 1, x), XAttributeDiscrete(k, 1, x)),
                 (XAttributeContinuous(k, 1.5, x), XAttributeContinuous(k, 1.5, x)), (XAttributeBoolean(k, True, x), XAttributeBoolean(k, True, x)),
                 (XAttributeList(k, x), XAttributeList(k, x)), (XAttributeContainer(k, x), XAttributeContainer(k, x))):
        a.get_attributes()[k] = XAttributeLiteral(k, v)
        ensures(len(b.get_attributes()) == 0 and len(a.get_attributes()) == 1, "attributes share no nested attributes")
        ensures(a.get_key() == k and a.get_extension() is x, "the key and extension are those given")


@lemma("C22")
def new_collections(k: Key, v: str):
    a, b = XAttributeList(k), XAttributeList(k)
    a.add_to_collection(XAttributeLiteral(k, v))
    ensures(len(b.get_collection()) == 0 and len(a.get_collection()) == 1, "lists share no members")
    c, d = XAttributeContainer(k), XAttributeContainer(k)
    c.add_to_collection(XAttributeLiteral(k, v))
    ensures(len(d.get_collection()) == 0 and len(c.get_collection()) == 1, "containers share no members")


@lemma("C22")
def from_the_factory(k: Key, v: str):
    a = XAttributeLiteral(k, v)
    e, f = XFactory.create_event(), XFactory.create_event()
    t, u = XFactory.create_trace(), XFactory.create_trace()
    g, h = XFactory.create_log(), XFactory.create_log()
    m, n = XFactory.create_attribute_map(), XFactory.create_attribute_map()
    e.get_attributes()[k] = a
    t.get_attributes()[k] = a
    g.get_attributes()[k] = a
    m[k] = a
    t.append(e)
    g.append(t)
    ensures(len(f.get_attributes()) == 0 and len(u.get_attributes()) == 0 and len(h.get_attributes()) == 0 and len(n) == 0,
            "created elements share no attributes")
    ensures(len(u) == 0 and len(h) == 0, "created elements share no members")
    ensures(not (e == f), "created events are different events")


@lemma("C22")
def holds_the_given_map(k: Key, v: str, i: XID):
    m = XAttributeMap()
    m[k] = XAttributeLiteral(k, v)
    ensures(XEvent(m).get_attributes() is m and XEvent(m, i).get_attributes() is m, "an event holds the attributes it is given")
    ensures(XTrace(m).get_attributes() is m and XLog(m).get_attributes() is m, "traces and logs hold the attributes they are given")
    ensures(XFactory.create_event(m, i).get_attributes() is m and XFactory.create_trace(m).get_attributes() is m
            and XFactory.create_log(m).get_attributes() is m, "so do created ones")
    ensures(XEvent(m, i).get_id() is i and XEvent(identity=i).get_id() is i and XFactory.create_event(m, i).get_id() is i
            and XFactory.create_event(identity=i).get_id() is i, "an event holds the identity it is given")
    n = XAttributeMap()
    e = XEvent(m)
    e.set_attributes(n)
    ensures(e.get_attributes() is n and len(m) == 1, "attributes can be replaced")
    e.set_id(i)
    ensures(e.get_id() is i and e == XEvent(identity=i), "and so can the identity")
    empty = XAttributeMap()
    ensures(len(XEvent(empty).get_attributes()) == 0 and XEvent(m) != XEvent(m), "events of one map are different events")


@lemma("C22")
def map_of_a_map(m: XAttributeMap, q: Key, k: Key, v: str):
    n = XAttributeMap(m)
    ensures(n is not m and len(n) == len(m) and (q in n) == (q in m) and n.get(q) is m.get(q), "a map made from a map has the same entries")
    s = snapshot(m)
    n[k] = XAttributeLiteral(k, v)
    ensures(unchanged(s), "adding to a map made from a map does not show in the first")


def two_processes(s, p, q, t, x):
    root = ET.Element("WorkflowLog")
    sub(root, "Source", program=s)
    for n in (p, q):
        inst = sub(sub(root, "Process", id=n), "ProcessInstance", id=t)
        entry = sub(inst, "AuditTrailEntry")
        sub(sub(entry, "Data"), "Attribute", x, name="k")
        sub(entry, "WorkflowModelElement", x)
        sub(entry, "EventType", "start")
        sub(entry, "Originator", x)
    logs = parse_mxml(ET.tostring(root, "unicode"))
    requires(len(logs) == 2)
    return logs


@lemma("C22")
def logs_of_a_document(s: XmlStr, p: XmlStr, t: XmlStr, x: XmlStr, i: Const(0, 1, 2), j: Const(0, 1)):
    requires(plain_text(s) and plain_text(p) and plain_text(t) and plain_text(x))
    logs = two_processes(s, p, p, t, x)
    a, b = logs[j], logs[1 - j]
    u = snapshot(a)
    e = [b, b[0], b[0][0]][i]
    for c in list(e.get_attributes().values()):
        c.get_attributes()["new"] = XAttributeLiteral("new", "new")
        c.set_value("changed")
    e.get_attributes()["new"] = XAttributeLiteral("new", "new")
    b.get_extensions().clear()
    b.get_classifiers().append(None)
    b.get_global_event_attributes().append(None)
    b.append(XTrace(XAttributeMap()))
    b[0].append(XEvent())
    ensures(unchanged(u), "changing one log of a document does not show in another")


@lemma("C22", mode="bounded")
def many_events(g: Gen):
    n = g.r.choice([2, 10, 100, 700, 3000] if g.chance(.2) else [2, 10])
    ensures(len({str(XEvent().get_id()) for _ in range(n)}) == n, "new events have identities of their own")
    ensures(len({XIDFactory().create_id() for _ in range(n)}) == n, "and so have the identifiers of the factory")


@lemma("C22", mode="bounded", weight=2)
def parsed_logs_are_independent(g: Gen):
    log = g.log(depth=1, xml=True, ms=True)
    g.made = [log]
    text = xes_text(log)
    a, b = parse_xes(text), parse_xes(text)
    ensures(disjoint(a, b) if not log.get_extensions() else True, "logs read from the same document share no parts")
    seen = set()
    for x in (a, b):
        for el in [x] + list(x) + [e for t in x for e in t]:
            ensures(id(el.get_attributes()) not in seen, "every element has attributes of its own")
            seen.add(id(el.get_attributes()))


@lemma("C22", mode="bounded")
def extensions_of_an_element(e: XElement):
    want = {id(a.get_extension()) for a in e.get_attributes().values() if a.get_extension() is not None}
    if not isinstance(e, XLog):
        ensures({id(x) for x in e.get_extensions()} == want, "the extensions of an element are those of its attributes")
