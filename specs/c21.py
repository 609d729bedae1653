"""C21 — reading operations leave the log as it is: writing, summarising, classifying, comparing, printing."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttribute import XAttribute
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.info.XAttributeInfo import XAttributeInfo
from opyenxes.info.XTimeBounds import XTimeBounds
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.utils.XAttributeUtils import XAttributeUtils
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from specs.c18 import mxml_log


STANDARD = ("concept:name", "concept:instance", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp",
            "identity:id")


def has_value(e, k):
    return not isinstance(e.get_attributes().get(k), XAttributeCollection)


@lemma("C21", mode="bounded", weight=3)
def writing(g: Gen):
    log = mxml_log(g) if g.chance(.5) else None
    mx = log is not None
    if not mx:
        log = g.log(depth=2, xml=True, ms=True)
    g.made = [log]
    s = snapshot(log, *[XExtensionManager().get_by_prefix(p) for p in ("concept", "org", "lifecycle", "time")])
    a, b = xes_text(log), xes_text(log)
    ensures(a == b, "writing the same log twice gives the same document")
    ensures(unchanged(s), "writing XES changes nothing")
    if mx:
        ensures(mxml_text(log) == mxml_text(log), "writing the same log twice gives the same document")
        ensures(unchanged(s), "writing MXML changes nothing")


@lemma("C21", mode="bounded", weight=2)
def summarising(g: XLog, c: XEventAttributeClassifier):
    s = snapshot(g, c)
    info = XLogInfo.create(g, c)
    XEventClasses.derive_event_classes(c, g)
    ensures(unchanged(s), "summarising changes nothing")
    k = list(g.get_classifiers())
    before = [list(t) for t in g]
    XLogInfoFactory.create_log_info(g, c)
    ensures(list(g.get_classifiers()) == k and len(before) == len(g) and all(len(x) == len(y) and all(e is f for e, f in zip(x, y))
            for x, y in zip(before, g)), "summarising with a cache keeps traces, events and classifiers")


@lemma("C21", mode="bounded", weight=2)
def reading(g: XLog, c: XEventAttributeClassifier):
    for x in [g] + list(g) + [e for t in g for e in t]:
        for k in STANDARD:
            if not has_value(x, k) or (k == "time:timestamp" and not isinstance(x.get_attributes().get(k), XAttributeTimestamp)):
                x.get_attributes().pop(k, None)
    s = snapshot(g, c)
    XConceptExtension().extract_name(g)
    for t in g:
        XConceptExtension().extract_name(t)
        t.get_extensions()
        t.has_attributes()
        hash(t)
        for e in t:
            XLifecycleExtension().extract_transition(e)
            XOrganizationalExtension().extract_resource(e)
            XTimeExtension().extract_timestamp(e)
            XIdentityExtension().extract_id(e)
            c.get_class_identity(e)
            c.same_event_class(e, e)
            hash(e)
            for a in e.get_attributes().values():
                str(a), hash(a), a == a, a.clone(), XAttributeUtils.get_type(a)
            e.clone()
            XTimeBounds().register(e)
            ensures(e in t, "membership")
    g.clone()
    ensures(unchanged(s), "reading, hashing, comparing and cloning change nothing")


@lemma("C21")
def classifying(e: XEvent, f: XEvent, n: str, k: Key, k2: Key):
    s = snapshot(e, f)
    c = XEventAttributeClassifier(n, [k, k2])
    c.get_class_identity(e)
    c.same_event_class(e, f)
    ensures(unchanged(s), "classifying changes nothing")


@lemma("C21")
def comparing(a: XAttribute, b: XAttribute):
    s = snapshot(a, b)
    a == b
    a != b
    str(a)
    hash(a)
    ensures(unchanged(s), "comparing, printing and hashing change nothing")


@lemma("C21")
def ordering(a: XAttribute, b: XAttribute):
    requires(type(a) is type(b) and not isinstance(a, XAttributeCollection))
    s = snapshot(a, b)
    a.compare_to(b)
    ensures(unchanged(s), "ordering changes nothing")


@lemma("C21")
def extracting(e: XEvent, j: Nat):
    requires(j < 10)
    c, o = XConceptExtension(), XOrganizationalExtension()
    key, f = [("concept:name", c.extract_name), ("concept:instance", c.extract_instance),
              ("lifecycle:transition", XLifecycleExtension().extract_transition), ("org:resource", o.extract_resource),
              ("org:role", o.extract_role), ("org:group", o.extract_group), ("identity:id", XIdentityExtension().extract_id),
              ("time:timestamp", XTimeExtension().extract_timestamp), (None, lambda x: x.has_attributes()),
              (None, lambda x: x.get_extensions())][j]
    requires(key is None or has_value(e, key))
    s = snapshot(e)
    f(e)
    ensures(unchanged(s), "extracting changes nothing")


@lemma("C21")
def summarising_attributes(a: XAttribute, b: XAttribute):
    s = snapshot(a, b)
    i = XAttributeInfo()
    i.register(a)
    i.register(b)
    ensures(unchanged(s), "registering attributes changes none of them")


# ---- any log: what is nested in the attributes at hand is written by contract (the lemmas *_nested: writing changes no attribute)

@lemma("C21", mode="induction")
def writing_xes(log: Xml[XLog]):
    s = snapshot(log)
    XesXmlSerializer().serialize(log, io.StringIO())
    ensures(unchanged(s), "writing XES changes nothing")


@lemma("C21", mode="induction", depth=1)
def writing_xes_nested(m: Xml[XAttributeMap]):
    log = XLog(m)
    s = snapshot(log)
    XesXmlSerializer().serialize(log, io.StringIO())
    ensures(unchanged(s), "writing XES changes no attribute")


@lemma("C21", mode="bounded")
def writing_mxml(log: Xml[XLog]):
    s = snapshot(log, XConceptExtension(), XLifecycleExtension(), XOrganizationalExtension(), XTimeExtension())
    raised(lambda: XMxmlSerializer().serialize(log, io.StringIO()))
    ensures(unchanged(s), "writing MXML changes nothing, not even when a standard attribute is of a kind that cannot be written")


@lemma("C21", mode="bounded")
def writing_mxml_nested(m: Xml[XAttributeMap]):
    log = XLog(m)
    s = snapshot(log)
    raised(lambda: XMxmlSerializer().serialize(log, io.StringIO()))
    ensures(unchanged(s), "writing MXML changes no attribute")


@lemma("C21")
def cloning(e: XEvent, t: XTrace, g: XLog):
    s = snapshot(e, t, g)
    e.clone()
    t.clone()
    g.clone()
    ensures(unchanged(s), "cloning changes nothing")


@lemma("C21")
def hashing(t: XTrace, e: XEvent, f: XEvent):
    s = snapshot(t, e, f)
    hash(e)
    e == f
    e in t
    f.has_attributes()
    ensures(unchanged(s), "hashing, comparing and membership change nothing")


@lemma("C21")
def bounding(d: XEvent, e: XEvent):
    requires(all(isinstance(x.get_attributes().get("time:timestamp"), (XAttributeTimestamp, type(None))) for x in (d, e)))
    s = snapshot(d, e)
    b, c = XTimeBounds(), XTimeBounds()
    b.register(d)
    c.register(b)
    c.register(e)
    ensures(unchanged(s), "registering events in time bounds changes none of them")


@lemma("C21")
def extracting_from_a_log(g: XLog, t: XTrace, j: Nat):
    requires(j < 3)
    c = XConceptExtension()
    x, key, f = [(g, "concept:name", c.extract_name), (t, "concept:name", c.extract_name),
                 (g, "lifecycle:model", XLifecycleExtension().extract_model)][j]
    requires(has_value(x, key))
    s = snapshot(x)
    f(x)
    ensures(unchanged(s), "extracting changes nothing")


@lemma("C21")
def getting(g: XLog, t: XTrace):
    s = snapshot(g, t)
    g.get_classifiers()
    g.get_extensions()
    t.get_extensions()
    g.get_global_event_attributes()
    g.get_global_trace_attributes()
    g.has_attributes()
    t.has_attributes()
    ensures(unchanged(s), "asking for parts of a log changes nothing")
