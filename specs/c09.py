"""C09 — log summaries: counts, event classes and time boundaries agree with the log."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier

LEGACY = XEventAttributeClassifier("MXML Legacy Classifier", ["concept:name", "lifecycle:transition"])


def text_at(e, k):
    a = e.get_attributes().get(k)
    return "" if a is None else str(a)


def stamps(events):
    out = []
    for e in events:
        a = e.get_attributes().get("time:timestamp")
        if a is not None:
            out.append(a.get_value())
    return out


def bounds_are(b, vs, what):
    if vs:
        ensures(b.get_start_date() == min(vs) and b.get_end_date() == max(vs), what + " are the earliest and the latest timestamp")
    else:
        ensures(b.get_start_date() is None and b.get_end_date() is None, what + " are empty without timestamps")


def sized_as(ec, c, g):
    n = {}
    for t in g:
        for e in t:
            i = c.get_class_identity(e)
            n[i] = n.get(i, 0) + 1
    ensures({k.get_id(): k.size() for k in ec.get_classes()} == n, "one class per identity, sized by its events")
    ensures([ec.get_by_index(i).get_id() for i in range(len(n))] == sorted(n), "classes are indexed in the order of their identities")
    ensures(ec.get_classifier() == c, "the classes are those of the classifier")


@lemma("C09", mode="bounded", weight=3)
def summary(g: Gen):
    log = g.log(depth=g.r.choice([0, 1]))
    own = [g.classifier() for _ in range(g.r.choice([0, 0, 1, 2]))]
    default = g.classifier() if g.chance(.5) else None
    known = {}
    requires(all(known.setdefault(sid(e), e) is e for t in log for e in t))
    s = snapshot(log)
    info = XLogInfo.create(log, default, own)
    ensures(unchanged(s), "summarising does not change the log")
    ensures(info.get_log() is log, "the summary is about the log")
    ensures(info.get_number_of_traces() == len(log), "the number of traces")
    ensures(info.get_number_of_event() == sum(len(t) for t in log), "the number of events")
    bounds_are(info.get_log_time_boundaries(), stamps(e for t in log for e in t), "the bounds of the log")
    for t in log:
        bounds_are(info.get_trace_time_boundaries(t), stamps(t), "the bounds of a trace")
    first = default if default is not None else LEGACY
    wanted = own + [first, XEventNameClassifier(), XEventResourceClassifier(), XEventLifeTransClassifier()]
    have = info.get_event_classifiers()
    ensures(all(any(c == d for d in have) for c in wanted) and all(any(c == d for d in wanted) for c in have),
            "the given, the default and the standard classifiers are covered")
    for c in wanted:
        sized_as(info.get_event_classes(c), c, log)
    sized_as(info.get_event_classes(), first, log)
    sized_as(info.get_name_classes(), XEventNameClassifier(), log)
    sized_as(info.get_resource_classes(), XEventResourceClassifier(), log)
    sized_as(info.get_transition_classes(), XEventLifeTransClassifier(), log)


@lemma("C09", mode="bounded", weight=1)
def all_constructions_agree(g: XLog, c: XEventAttributeClassifier):
    for info in (XLogInfoFactory.create_log_info(g, c), XLogInfo.create(g, c), XLogInfo(g, c, None), XLogInfo(g, c, [c])):
        ensures(info.get_number_of_traces() == len(g) and info.get_number_of_event() == sum(len(t) for t in g), "the counts")
        sized_as(info.get_event_classes(), c, g)
        derived = XEventClasses.derive_event_classes(c, g)
        ensures([(k.get_id(), k.size(), k.get_index()) for k in sorted(derived.get_classes())]
                == [(k.get_id(), k.size(), k.get_index()) for k in sorted(info.get_event_classes(c).get_classes())],
                "the classes are those derived directly")
    d = XLogInfoFactory.create_log_info(g)
    sized_as(d.get_event_classes(), LEGACY, g)


@lemma("C09", mode="bounded", weight=1)
def cached(g: XLog, c: XEventAttributeClassifier, d: XEventAttributeClassifier):
    requires(not (c == d))
    ensures(g.get_info(c) is None, "no summary before one is made")
    info = XLogInfoFactory.create_log_info(g, c)
    ensures(g.get_info(c) is info and XLogInfoFactory.create_log_info(g, c) is info, "the summary of a classifier is reused")
    ensures(g.get_info(d) is None, "a summary is not reused for another classifier")
    other = XLogInfoFactory.create_log_info(g, d)
    ensures(other is not info and g.get_info(d) is other, "another classifier gets its own summary")
    sized_as(other.get_event_classes(), d, g)
    h = g.clone()
    plain = XLogInfoFactory.create_log_info(h)
    ensures(h.get_info(XLogInfo.STANDARD_CLASSIFIER) is plain and XLogInfoFactory.create_log_info(h) is plain, "the standard classifier is used if none is given")
    sized_as(plain.get_event_classes(), XLogInfo.STANDARD_CLASSIFIER, h)
    # the log grows: the kept summary is that of the log then, or of the log now
    n, m = len(g), sum(len(t) for t in g)
    t = XTrace(XAttributeMap())
    t.append(XEvent())
    g.append(t)
    again = XLogInfoFactory.create_log_info(g, d)
    ensures((again.get_number_of_traces(), again.get_number_of_event()) in ((n, m), (n + 1, m + 1)), "a kept summary counts nothing twice")


@lemma("C09")
def kept(v: str, n: str, k2: Const("a", "b")):
    k = "a"
    c, d = XEventAttributeClassifier(n, [k]), XEventAttributeClassifier("d", [k2])
    requires(not (c == d))
    g, t, e = XLog(XAttributeMap()), XTrace(XAttributeMap()), XEvent()
    e.get_attributes()[k] = XAttributeLiteral(k, v)
    t.append(e)
    g.append(t)
    ensures(g.get_info(c) is None and g.get_info(d) is None, "no summary before one is made")
    info = XLogInfoFactory.create_log_info(g, c)
    ensures(g.get_info(c) is info and XLogInfoFactory.create_log_info(g, c) is info, "the summary of a classifier is reused")
    ensures(g.get_info(d) is None, "a summary is not reused for another classifier")
    other = XLogInfoFactory.create_log_info(g, d)
    ensures(other is not info and g.get_info(d) is other, "another classifier gets its own summary")
    ensures(other.get_number_of_traces() == 1 and other.get_number_of_event() == 1, "with its own counts")
    ensures(other.get_event_classes().get_class_of(e).size() == 1 and other.get_event_classes().get_class_of(e).get_id() == d.get_class_identity(e),
            "and the classes of its classifier")


@lemma("C09")
def empty_log(n: str, k: Key):
    g = XLog(XAttributeMap())
    info = XLogInfo.create(g, XEventAttributeClassifier(n, [k]))
    ensures(info.get_number_of_traces() == 0 and info.get_number_of_event() == 0, "nothing to count")
    ensures(len(info.get_event_classes()) == 0 and len(info.get_name_classes()) == 0, "no classes")
    b = info.get_log_time_boundaries()
    ensures(b.get_start_date() is None and b.get_end_date() is None, "no bounds")


class Summary(XLogInfo):
    """A summary without the attributes (C11)."""
    def register_attributes(self, info, x):
        pass


@lemma("C09")
def one_event(e: XEvent, n: str, k: Key):
    requires("time:timestamp" not in e.get_attributes())
    g = XLog(XAttributeMap())
    t = XTrace(XAttributeMap())
    t.append(e)
    g.append(t)
    g.append(XTrace(XAttributeMap()))
    c = XEventAttributeClassifier(n, [k])
    info = Summary(g, c, None)
    ensures(info.get_number_of_traces() == 2 and info.get_number_of_event() == 1, "the counts")
    ensures(len(info.get_event_classes()) == 1, "one class")
    ensures(info.get_event_classes().get_by_identity(text_at(e, k)).size() == 1, "the class of the event has one event")
    ensures(info.get_name_classes().get_by_identity(text_at(e, "concept:name")).size() == 1, "the name class of the event has one event")
    b = info.get_log_time_boundaries()
    ensures(b.get_start_date() is None and b.get_end_date() is None, "no bounds without timestamps")


# ---- any log: what reaches the parts of a summary (their own properties: C08, C10, C11)

class Seen:
    """Stands for event classes, time bounds and attribute infos; writes down what is registered."""
    def __init__(self, *given):
        self.given = given
        self.seen = []
        self.ends = 0

    def register(self, x):
        self.seen.append(x)

    def harmonize_indices(self):
        self.ends += 1


def summary_of(g, c, cs=None):
    import opyenxes.info.XLogInfo as module
    module.XEventClasses = module.XTimeBounds = module.XAttributeInfo = Seen
    return Summary(g, c, cs)


def is_list(xs, ys):
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


@lemma("C09", mode="shape")
def one_trace(t: XTrace, n: str, k: Key):
    c = XEventAttributeClassifier(n, [k])
    g = XLog(XAttributeMap())
    g.append(t)
    info = summary_of(g, c)
    ensures(info.get_number_of_traces() == 1 and info.get_number_of_event() == len(t), "the counts")
    for ec in (info.get_event_classes(), info.get_event_classes(c), info.get_name_classes(), info.get_resource_classes(), info.get_transition_classes()):
        ensures(is_list(ec.seen, t) and ec.ends == 1, "every event is registered with the classes of every classifier, once and in order")
    ensures(is_list(info.get_trace_time_boundaries(t).seen, t), "and with the bounds of its trace")
    ensures(is_list(info.get_log_time_boundaries().seen, [info.get_trace_time_boundaries(t)]), "the bounds of the trace with those of the log")


@lemma("C09", mode="shape")
def many_traces(es: List[XEvent], n: str, k: Key, i: Nat):
    requires(i < len(es))
    c = XEventAttributeClassifier(n, [k])
    g = XLog(XAttributeMap())
    for e in es:
        t = XTrace(XAttributeMap())
        t.append(e)
        g.append(t)
    info = summary_of(g, c)
    ensures(info.get_number_of_traces() == len(es) and info.get_number_of_event() == len(es), "the counts")
    for ec in (info.get_event_classes(), info.get_name_classes(), info.get_resource_classes(), info.get_transition_classes()):
        ensures(is_list(ec.seen, es) and ec.ends == 1, "every event is registered with the classes of every classifier, once and in order")
    b = info.get_log_time_boundaries().seen
    ensures(len(b) == len(es) and len(b[i].seen) == 1 and b[i].seen[0] is es[i], "the bounds of every trace are registered with those of the log")


@lemma("C09", mode="shape")
def covered(n2: str, k2: Key, n: str, k: Key, e: XEvent):
    a = XEventAttributeClassifier(n2, [k2])
    c = XEventAttributeClassifier(n, [k])
    g, t = XLog(XAttributeMap()), XTrace(XAttributeMap())
    t.append(e)
    g.append(t)
    info = summary_of(g, c, [a])
    ensures(info.get_log() is g, "the summary is about the log")
    for d in (a, c, XEventNameClassifier(), XEventResourceClassifier(), XEventLifeTransClassifier()):
        ec = info.get_event_classes(d)
        ensures(ec is not None and ec.given[0] == d and len(ec.seen) == 1 and ec.seen[0] is e and ec.ends == 1,
                "the given, the default and the standard classifiers are covered, with every event once")
    ensures(info.get_event_classes() is info.get_event_classes(c), "the classes of the default classifier")
