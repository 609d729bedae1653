"""C18 — MXML: what the format can carry of a log survives writing and reading it back."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from xml.etree import ElementTree
from vspec import *
from gens import Gen
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer

KNOWN = ("schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
         "manualskip")
STANDARD = ("concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "semantic:modelReference")


def carried(m):
    """What MXML can carry: texts without carriage returns, plain keys, standard attributes of their standard kind."""
    keys = set()
    for k, a in list(m.items()):
        bad = "\r" in str(a) or k.strip() in keys or k.strip() != k or isinstance(a, XAttributeCollection) or (
            k in STANDARD and (not isinstance(a, XAttributeLiteral) or a.get_value().strip() == "" or a.get_value() == "UNKNOWN"
                               or a.get_value().strip() != a.get_value())) or (k == "time:timestamp" and not isinstance(a, XAttributeTimestamp))
        if bad:
            del m[k]
        else:
            keys.add(k)
    return m


def text_of(m, k):
    return None if k not in m else m[k].get_value()


def data(m):
    return {k: str(a).strip() for k, a in m.items() if k != "semantic:modelReference" and str(a).strip() != ""}


def texts(m):
    return {k: (a.get_value() if isinstance(a, XAttributeLiteral) else a) for k, a in m.items() if k != "time:timestamp"}


def expected_event(m):
    want = data(m)
    want.pop("time:timestamp", None)
    if "semantic:modelReference" in m:
        want["semantic:modelReference"] = m["semantic:modelReference"].get_value()
    t = text_of(m, "lifecycle:transition")
    want["lifecycle:transition"] = "complete" if t is None else (t.lower() if t.lower() in KNOWN else t)
    for k in ("org:resource", "org:role", "org:group"):
        if k in m:
            want["org:resource"] = m[k].get_value()
            break
    return want


def expected_header(m, name, kindword):
    want = {"concept:name": name[0], "description": kindword + " with id " + name[1]}
    if "semantic:modelReference" in m:
        want["semantic:modelReference"] = m["semantic:modelReference"].get_value()
    return want


def check(log, back):
    want = {"source": "XES MXML serialization", "lifecycle:model": "standard"}
    n = text_of(log.get_attributes(), "concept:name")
    want.update(expected_header(log.get_attributes(), ("none", "None") if n is None else (n, n), "process"))
    want.update(data(log.get_attributes()))
    have = texts(back.get_attributes())
    have.pop("time:timestamp", None)
    want.pop("time:timestamp", None)
    ensures(have == want, "the log keeps its name, model reference and data")
    kept = [t for t in log if len(t) > 0]
    ensures(len(back) == len(kept), "every trace with events is kept")
    for t, u in zip(kept, back):
        n = text_of(t.get_attributes(), "concept:name")
        want = expected_header(t.get_attributes(), ("None", "None") if n is None else (n, n), "instance")
        want.update(data(t.get_attributes()))
        want.pop("time:timestamp", None)
        ensures(texts(u.get_attributes()) == want, "traces keep their order, name, model reference and data")
        ensures(len(t) == len(u), "every event is kept")
        for e, f in zip(t, u):
            m, n = e.get_attributes(), f.get_attributes()
            ensures(texts(n) == expected_event(m), "events keep their order, name, transition, resource, model reference and data")
            ensures(("time:timestamp" in m) == ("time:timestamp" in n), "exactly the timestamps that were there are kept")
            if "time:timestamp" in m:
                v, w = m["time:timestamp"].get_value(), n["time:timestamp"].get_value()
                ensures(v == w and v.utcoffset() == w.utcoffset(), "timestamps keep instant and offset")


def mxml_log(g):
    log = g.log(depth=0, xml=True, ms=True, full=False)
    carried(log.get_attributes())
    for t in log:
        carried(t.get_attributes())
        t.get_attributes().pop("time:timestamp", None)
        for e in t:
            m = carried(e.get_attributes())
            for a in m.values():
                a.get_attributes().clear()
            if g.chance(.3):
                v = g.r.choice(KNOWN)
                m["lifecycle:transition"] = XAttributeLiteral("lifecycle:transition", g.r.choice([v, v.upper(), v.title()]))
            if g.chance(.2):
                k = g.r.choice(["org:resource", "org:role", "org:group", "semantic:modelReference"])
                m[k] = XAttributeLiteral(k, "v " + g.r.choice("xyz"))
    return log


def document(log, root):
    """What other readers of MXML look at: the names and types in the elements of their own."""
    ensures(root.tag == "WorkflowLog" and len(root.findall("Process")) == 1, "a workflow log with one process")
    process = root.find("Process")
    name = log.get_attributes().get("concept:name")
    ensures(name is None or process.get("id") == name.get_value(), "the process has the name of the log")
    instances = process.findall("ProcessInstance")
    ensures(len(instances) == len(log), "an instance per trace")
    for t, i in zip(log, instances):
        name = t.get_attributes().get("concept:name")
        ensures(name is None or i.get("id") == name.get_value(), "the instance has the name of the trace")
        entries = i.findall("AuditTrailEntry")
        ensures(len(entries) == len(t), "an entry per event")
        for e, a in zip(t, entries):
            name = e.get_attributes().get("concept:name")
            ensures(len(a.findall("WorkflowModelElement")) == len(a.findall("EventType")) == 1, "one name and one type")
            ensures(name is None or (a.find("WorkflowModelElement").text or "") == name.get_value(), "the name of the event")
            kind = e.get_attributes().get("lifecycle:transition")
            want = "complete" if kind is None else kind.get_value().strip().lower()
            ensures(a.find("EventType").text == (want if want in KNOWN else "unknown"), "the type of the event")
            ensures(want in KNOWN or a.find("EventType").get("unknownType") == kind.get_value(), "a type of its own is kept")
            ensures(len(a.findall("Timestamp")) == ("time:timestamp" in e.get_attributes()), "the time of the event")


@lemma("C18", mode="bounded", weight=4)
def write_then_read(g: Gen):
    log = mxml_log(g)
    g.made = [log]
    s = snapshot(log)
    text = mxml_text(log)
    back = parse_mxml(text)
    ensures(unchanged(s), "writing does not change the log")
    ensures(len(back) == 1, "one log is written")
    document(log, ElementTree.fromstring(text))
    check(log, back[0])


@lemma("C18", mode="bounded", weight=2)
def references(g: Gen):
    """Model references of the parts of an event."""
    e = XEvent()
    want = {}
    for k in ("a", "lifecycle:transition", "org:resource"):
        if g.chance(.7):
            a = XAttributeLiteral(k, g.r.choice(["start", "other"]))
            r = g.r.choice(["http://x.y/z", "r<&\"'>", "r r"])
            a.get_attributes()["semantic:modelReference"] = XAttributeLiteral("semantic:modelReference", r)
            e.get_attributes()[k] = a
            want[k] = r
    t = XTrace(XAttributeMap())
    t.append(e)
    log = XLog(XAttributeMap())
    log.append(t)
    f = parse_mxml(mxml_text(log))[0][0][0]
    for k in ("lifecycle:transition", "org:resource"):
        if k in want:
            got = f.get_attributes()[k].get_attributes().get("semantic:modelReference")
            ensures(got is not None and got.get_value() == want[k], "model references of transition and resource are kept")


def plain(g):
    while True:
        s = g.xmlstr()
        if "\r" not in s and s.strip() != "" and s.strip() != "UNKNOWN":
            return s


@lemma("C18", mode="bounded", weight=2)
def documents(g: Gen):
    """Documents as other tools write them: several processes, entries in any shape, surrounding blanks."""
    r = g.r
    out = ["<WorkflowLog>"]
    source = None
    if g.chance(.5):
        source = plain(g)
        out.append("<Source program=%s/>" % quoteattr(source, {"\n": "&#10;", "\t": "&#9;"}))
    want = []
    q = lambda s: quoteattr(s, {"\n": "&#10;", "\t": "&#9;"})
    pad = lambda s: r.choice(["", " ", "\n\t"]) + escape(s) + r.choice(["", "\n", " "])
    for _ in range(r.choice([1, 1, 2, 3])):
        name = plain(g)
        out.append("<Process id=%s>" % q(name))
        traces = []
        for _ in range(r.choice([0, 1, 2])):
            tname = plain(g)
            out.append("<ProcessInstance id=%s>" % q(tname))
            events = []
            for _ in range(r.choice([0, 1, 2, 3])):
                out.append("<AuditTrailEntry>")
                ev = {}
                if g.chance(.6):
                    ks = ["p", "q", "p q", "r:s"]
                    r.shuffle(ks)
                    out.append("<Data>")
                    for k in ks[:r.choice([0, 1, 2])]:
                        ev[k] = plain(g).strip()
                        out.append("<Attribute name=%s>%s</Attribute>" % (q(r.choice(["", " "]) + k), pad(ev[k])))
                    out.append("</Data>")
                ev["concept:name"] = plain(g).strip()
                out.append("<WorkflowModelElement>%s</WorkflowModelElement>" % pad(ev["concept:name"]))
                if g.chance(.8):
                    ev["lifecycle:transition"] = r.choice(KNOWN)
                    out.append("<EventType>%s</EventType>" % pad(ev["lifecycle:transition"]))
                elif g.chance(.5):
                    ev["lifecycle:transition"] = plain(g)
                    out.append("<EventType unknownType=%s>unknown</EventType>" % q(ev["lifecycle:transition"]))
                if g.chance(.5):
                    v = g.stamp(ms=True)
                    ev["time:timestamp"] = v
                    out.append("<Timestamp>%s</Timestamp>" % pad(v.isoformat(timespec="milliseconds")))
                if g.chance(.5):
                    ev["org:resource"] = plain(g).strip()
                    out.append("<Originator>%s</Originator>" % pad(ev["org:resource"]))
                out.append("</AuditTrailEntry>")
                events.append(ev)
            out.append("</ProcessInstance>")
            if events:
                traces.append((tname, events))
        out.append("</Process>")
        want.append((name, traces))
    out.append("</WorkflowLog>")
    text = "".join(out)
    g.made = [text]
    logs = parse_mxml(text)
    ensures([x.get_attributes()["concept:name"].get_value() for x in logs] == [n for n, _ in want], "every process is a log, in order")
    for x, (n, traces) in zip(logs, want):
        ensures(source is None or x.get_attributes()["source"].get_value() == source, "the source program is kept")
        ensures([t.get_attributes()["concept:name"].get_value() for t in x] == [n for n, _ in traces], "every instance with entries is a trace, in order")
        for t, (_, events) in zip(x, traces):
            ensures([{k: a.get_value() for k, a in e.get_attributes().items()} for e in t] == events, "every entry is an event with its parts")
    ensures(all(e is not f for x in logs for t in x for e in t for y in logs for u in y if u is not t for f in u), "events are not shared")



@lemma("C18", mode="bounded", weight=1)
def bytes_and_text_agree(g: Gen):
    log = mxml_log(g)
    g.made = [log]
    a, b = io.StringIO(), io.BytesIO()
    XMxmlSerializer().serialize(log, a)
    XMxmlSerializer().serialize(log, b, True)
    ensures(a.getvalue().encode("utf-8") == b.getvalue(), "both outputs are the same document")


# ---- logs of a fixed shape with any texts

def plain_text(s):
    return s.strip() == s and s != "" and s != "UNKNOWN" and "\r" not in s


def literal(m, k, v):
    m[k] = XAttributeLiteral(k, v)


def value(m, k):
    return m[k].get_value() if k in m and type(m[k]) is XAttributeLiteral else None


def there_and_back(events, log_name=None, trace_name=None):
    log, t = XLog(XAttributeMap()), XTrace(XAttributeMap())
    if log_name is not None:
        literal(log.get_attributes(), "concept:name", log_name)
    if trace_name is not None:
        literal(t.get_attributes(), "concept:name", trace_name)
    for e in events:
        t.append(e)
    log.append(t)
    logs = parse_mxml(mxml_text(log))
    ensures(len(logs) == 1 and len(logs[0]) == 1 and len(logs[0][0]) == len(events), "one log with one trace with its events")
    return logs[0]


@lemma("C18")
def names(l: XmlStr, t: XmlStr, e: XmlStr):
    requires(plain_text(l) and plain_text(t) and plain_text(e))
    ev = XEvent()
    literal(ev.get_attributes(), "concept:name", e)
    back = there_and_back([ev], l, t)
    ensures(value(back.get_attributes(), "concept:name") == l, "the name of the log")
    ensures(value(back[0].get_attributes(), "concept:name") == t, "the name of the trace")
    ensures(value(back[0][0].get_attributes(), "concept:name") == e, "the name of the event")


def event(name="a"):
    e = XEvent()
    literal(e.get_attributes(), "concept:name", name)
    return e


@lemma("C18")
def transition(v: XmlStr):
    requires(plain_text(v))
    e, f = event(), event()
    literal(e.get_attributes(), "lifecycle:transition", v)
    back = there_and_back([e, f])[0]
    ensures(value(back[0].get_attributes(), "lifecycle:transition") == (v.lower() if v.lower() in KNOWN else v),
            "a known transition comes back in lower case, any other unchanged")
    ensures(value(back[1].get_attributes(), "lifecycle:transition") == "complete", "a missing transition comes back as 'complete'")


@lemma("C18")
def known_transitions(v: Const("SCHEDULE", "Assign", "withdraw", "reAssign", "Start", "suspenD", "RESUME", "Pi_Abort", "ATE_abort", "Complete",
                               "autoSkip", "manualskip")):
    e = event()
    literal(e.get_attributes(), "lifecycle:transition", v)
    ensures(value(there_and_back([e])[0][0].get_attributes(), "lifecycle:transition") == v.lower(), "a known transition comes back in lower case")


@lemma("C18")
def resource(r: XmlStr, o: XmlStr, p: XmlStr, has_r: bool, has_o: bool, has_p: bool):
    requires(plain_text(r) and plain_text(o) and plain_text(p))
    e = event()
    m = e.get_attributes()
    if has_p:
        literal(m, "org:group", p)
    if has_r:
        literal(m, "org:resource", r)
    if has_o:
        literal(m, "org:role", o)
    n = there_and_back([e])[0][0].get_attributes()
    ensures(value(n, "org:resource") == (r if has_r else o if has_o else p if has_p else None), "the resource, else the role, else the group, as resource")
    ensures(value(n, "org:role") == (o if has_o else None) and value(n, "org:group") == (p if has_p else None), "role and group are kept as texts")


@lemma("C18")
def timestamps(v: Stamp, w: Stamp):
    e, f, g = event(), event(), event()
    for x, s in ((e, v), (f, w)):
        x.get_attributes()["time:timestamp"] = XAttributeTimestamp("time:timestamp", s.replace(microsecond=s.microsecond // 1000 * 1000))
    back = there_and_back([e, f, g])[0]
    for x, y in ((e, back[0]), (f, back[1])):
        a = y.get_attributes()["time:timestamp"]
        ensures(type(a) is XAttributeTimestamp, "a timestamp stays a timestamp")
        s, t = x.get_attributes()["time:timestamp"].get_value(), a.get_value()
        ensures(s == t and s.utcoffset() == t.utcoffset(), "timestamps keep instant and offset")
    ensures("time:timestamp" not in back[2].get_attributes(), "no timestamp where there was none")


@lemma("C18")
def other_attributes(k: XmlStr, v: XmlStr, n: int, r: float, b: bool):
    requires(plain_text(v) and plain_text(k) and k not in STANDARD and k not in ("i", "r", "b", "time:timestamp", "source", "description", "lifecycle:model"))
    log, t, e = XLog(XAttributeMap()), XTrace(XAttributeMap()), event()
    t.append(e)
    log.append(t)
    for x in (log, t, e):
        m = x.get_attributes()
        literal(m, k, v)
        m["i"] = XAttributeDiscrete("i", n)
        m["r"] = XAttributeContinuous("r", r)
        m["b"] = XAttributeBoolean("b", b)
    back = parse_mxml(mxml_text(log))[0]
    for x in (back, back[0], back[0][0]):
        m = x.get_attributes()
        ensures(value(m, k) == v and value(m, "i") == str(n) and value(m, "r") == str(r) and value(m, "b") == ("true" if b else "false"),
                "every top-level attribute comes back as its text")


@lemma("C18")
def model_references(l: XmlStr, t: XmlStr, e: XmlStr):
    requires(plain_text(l) and plain_text(t) and plain_text(e))
    log, tr, ev = XLog(XAttributeMap()), XTrace(XAttributeMap()), event()
    tr.append(ev)
    tr.append(event())
    log.append(tr)
    for x, v in ((log, l), (tr, t), (ev, e)):
        literal(x.get_attributes(), "semantic:modelReference", v)
    back = parse_mxml(mxml_text(log))[0]
    for x, v in ((back, l), (back[0], t), (back[0][0], e), (back[0][1], None)):
        ensures(value(x.get_attributes(), "semantic:modelReference") == v, "the model references of log, trace and event")


@lemma("C18")
def references_of_parts(v: XmlStr, w: XmlStr):
    requires(plain_text(v) and plain_text(w))
    e = event()
    m = e.get_attributes()
    for k, r in (("lifecycle:transition", v), ("org:resource", w)):
        literal(m, k, "x")
        literal(m[k].get_attributes(), "semantic:modelReference", r)
    n = there_and_back([e])[0][0].get_attributes()
    for k, r in (("lifecycle:transition", v), ("org:resource", w)):
        ensures(value(n, k) == "x" and value(n[k].get_attributes(), "semantic:modelReference") == r, "references of transition and resource")


@lemma("C18")
def order(a: XmlStr, b: XmlStr, c: XmlStr, d: XmlStr):
    requires(plain_text(a) and plain_text(b) and plain_text(c) and plain_text(d))
    log = XLog(XAttributeMap())
    for n, es in ((a, [c, d, c]), (b, [d])):
        t = XTrace(XAttributeMap())
        literal(t.get_attributes(), "concept:name", n)
        for x in es:
            t.append(event(x))
        log.append(t)
    back = parse_mxml(mxml_text(log))[0]
    ensures([value(t.get_attributes(), "concept:name") for t in back] == [a, b], "traces keep their order")
    ensures([[value(e.get_attributes(), "concept:name") for e in t] for t in back] == [[c, d, c], [d]], "events keep their order")


def sub(parent, tag, text=None, **attrs):
    e = ET.SubElement(parent, tag)
    for k, v in attrs.items():
        e.set(k, v)
    e.text = text
    return e


@lemma("C18")
def processes(p: XmlStr, q: XmlStr, t: XmlStr, a: XmlStr, b: XmlStr, s: XmlStr, with_source: bool, spaced: bool):
    requires(plain_text(p) and plain_text(q) and plain_text(t) and plain_text(a) and plain_text(b) and plain_text(s))
    root = ET.Element("WorkflowLog")
    if with_source:
        sub(root, "Source", program=s)
    for n, x in ((p, a), (q, b)):
        proc = sub(root, "Process", id=n)
        sub(proc, "ProcessInstance", id="empty")
        inst = sub(proc, "ProcessInstance", id=t)
        entry = sub(inst, "AuditTrailEntry")
        sub(sub(entry, "Data"), "Attribute", ("\n " + x + " ") if spaced else x, name=" k ")
        sub(entry, "WorkflowModelElement", (" " + x + "\n") if spaced else x)
        sub(entry, "EventType", "start")
        sub(entry, "Originator", x)
    sub(root, "Process", id="last")
    if spaced:
        ET.indent(root)
    logs = parse_mxml(ET.tostring(root, "unicode"))
    ensures([value(x.get_attributes(), "concept:name") for x in logs] == [p, q, "last"], "every process is a log of its own, in order")
    for x, v in zip(logs, (a, b)):
        ensures(value(x.get_attributes(), "source") == (s if with_source else None), "the source program")
        ensures(len(x) == 1 and value(x[0].get_attributes(), "concept:name") == t and len(x[0]) == 1, "instances without entries are left out")
        m = x[0][0].get_attributes()
        ensures(len(m) == 4 and value(m, "k") == v and value(m, "concept:name") == v and value(m, "lifecycle:transition") == "start"
                and value(m, "org:resource") == v, "an entry is an event with its parts, and nothing else")
    ensures(len(logs[2]) == 0, "an empty process is an empty log")


@lemma("C18")
def header_of_a_process(p: XmlStr, n: Const(1, 2)):
    """Every log declares what events of the format have in common."""
    requires(plain_text(p))
    root = ET.Element("WorkflowLog")
    for _ in range(n):
        sub(root, "Process", id=p)
    for x in parse_mxml(ET.tostring(root, "unicode")):
        ensures(len(x.get_extensions()) == 5 and XConceptExtension() in x.get_extensions() and XLifecycleExtension() in x.get_extensions()
                and XOrganizationalExtension() in x.get_extensions() and XSemanticExtension() in x.get_extensions()
                and XTimeExtension() in x.get_extensions(), "the extensions of the format")
        ensures([list(c.get_defining_attribute_keys()) for c in x.get_classifiers()] == [
            ["concept:name", "lifecycle:transition"], ["concept:name"], ["org:resource"]], "its classifiers")
        ensures([a.get_key() for a in x.get_global_trace_attributes()] == ["concept:name"], "traces have names")
        ensures([a.get_key() for a in x.get_global_event_attributes()] == ["concept:name", "lifecycle:transition"], "events have names and types")


@lemma("C18")
def source_data(s: XmlStr, p: XmlStr, k: XmlStr, a: XmlStr, b: XmlStr):
    requires(plain_text(s) and plain_text(p) and plain_text(k) and plain_text(a) and plain_text(b))
    requires(k not in ("source", "concept:name", "lifecycle:model", "description"))
    root = ET.Element("WorkflowLog")
    sub(sub(sub(root, "Source", program=s), "Data"), "Attribute", a, name=k)
    proc = sub(root, "Process", id=p, description=a)
    sub(sub(proc, "Data"), "Attribute", b, name=k)
    inst = sub(proc, "ProcessInstance", id=p, description=b)
    sub(sub(inst, "Data"), "Attribute", a, name=k)
    sub(sub(inst, "AuditTrailEntry"), "WorkflowModelElement", p)
    logs = parse_mxml(ET.tostring(root, "unicode"))
    ensures(len(logs) == 1 and len(logs[0]) == 1 and len(logs[0][0]) == 1, "one log with one trace with one event")
    m = logs[0].get_attributes()
    ensures(set(m) == {"source", "concept:name", "lifecycle:model", "description", k} and value(m, "description") == a and value(m, k) == b and value(m, "source") == s, "the data of a process is the log's")
    ensures(list(m["source"].get_attributes()) == [k] and value(m["source"].get_attributes(), k) == a, "the data of the source is the source's")
    t = logs[0][0].get_attributes()
    ensures(set(t) == {"concept:name", "description", k} and value(t, "description") == b and value(t, k) == a, "the data of an instance is the trace's")


@lemma("C18", mode="induction")
def any_events(ns: List[XmlStr]):
    requires(all(plain_text(n) for n in ns) and len(ns) > 0)
    back = there_and_back_all([ns])
    ensures(len(back) == 1 and len(back[0]) == len(ns), "every event is kept")
    ensures(all(value(e.get_attributes(), "concept:name") == n for e, n in zip(back[0], ns)), "events keep their order and names")
    ensures(all(value(e.get_attributes(), "lifecycle:transition") == "complete" for e in back[0]), "a missing transition comes back as 'complete'")


def there_and_back_all(traces):
    log = XLog(XAttributeMap())
    for ns in traces:
        t = XTrace(XAttributeMap())
        for n in ns:
            t.append(event(n))
        log.append(t)
    return parse_mxml(mxml_text(log))[0]


@lemma("C18", mode="induction")
def any_traces(ns: List[XmlStr]):
    requires(all(plain_text(n) for n in ns))
    log = XLog(XAttributeMap())
    for n in ns:
        t = XTrace(XAttributeMap())
        literal(t.get_attributes(), "concept:name", n)
        t.append(event("a"))
        t.append(event("b"))
        log.append(t)
    back = parse_mxml(mxml_text(log))[0]
    ensures(len(back) == len(ns) and all(len(t) == 2 for t in back), "every trace with events is kept")
    ensures(all(value(t.get_attributes(), "concept:name") == n for t, n in zip(back, ns)), "traces keep their order and names")
    ensures(all(value(t[0].get_attributes(), "concept:name") == "a" and value(t[1].get_attributes(), "concept:name") == "b" for t in back),
            "events keep their order and names")
