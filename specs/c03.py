"""C03 — reading XES puts every attribute on the element that encloses it, whatever the document looks like."""
import io
import uuid
from datetime import datetime, timedelta, timezone
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.model.XLog import XLog
from opyenxes.model.XAttributeMap import XAttributeMap

TAGS = ("string", "date", "int", "float", "boolean", "id", "list", "container")
CLS = dict(zip(TAGS, (XAttributeLiteral, XAttributeTimestamp, XAttributeDiscrete, XAttributeContinuous, XAttributeBoolean, XAttributeID,
                      XAttributeList, XAttributeContainer)))
TAG_OF = dict(zip(CLS.values(), TAGS))


class Node:
    """An attribute element of a generated document: what is written and what must be read."""

    def __init__(self, tag, key, value, children):
        self.tag, self.key, self.value, self.children = tag, key, value, children

    def dropped(self):
        return self.tag == "date" and self.value is None


def case(g, tag):
    return g.r.choice([tag, tag, tag, tag, tag.upper(), tag.capitalize()])


def node(g, depth):
    r = g.r
    tag = r.choice(TAGS)
    key = None if r.random() < .06 else g.xmlstr() if r.random() < .4 else r.choice(["a", "b", "c", "concept:name", "org:x", "zz:y", "a:b:c"])
    kids = [node(g, depth - 1) for _ in range(g.r.choice([0, 0, 1, 2, 3]))] if depth else []
    value = {"string": g.xmlstr, "int": g.integer, "float": g.real, "boolean": lambda: r.choice(["true", "false", "TRUE", "False", "yes", ""]),
             "id": g.uuid, "date": lambda: None if r.random() < .35 else g.stamp(ms=True), "list": lambda: None, "container": lambda: None}[tag]()
    if tag == "string" and r.random() < .06:
        value = None
    return Node(tag, key, value, kids)


def text(g, n):
    t = case(g, n.tag)
    s = "<" + t
    if n.key is not None:
        s += " key=" + esc(n.key)
    if n.tag == "date":
        s += " value=" + esc(g.r.choice(["", "yesterday", "2010-13-01T00:00:00", "2010-01-01", "Z", "+", "2010-01-01T00:00:00+99:99"])
                             if n.value is None else n.value.isoformat(timespec="milliseconds"))
    elif n.value is not None:
        v = str(n.value)
        if n.tag == "id" and g.chance(.5):
            v = v.upper()
        s += " value=" + esc(v)
    if not n.children and g.chance(.5):
        return s + "/>"
    return s + ">" + g.r.choice(["", "\n\t"]).join([""] + [text(g, c) for c in n.children]) + "</" + t + ">"


def esc(s):
    return quoteattr(s, {"\n": "&#10;", "\r": "&#13;", "\t": "&#9;"})


def key_of(n):
    return "UNKNOWN" if n.key is None else n.key


def reads(n, a):
    """a is what reading n has to give."""
    key = key_of(n)
    if type(a) is not CLS[n.tag] or a.get_key() != key:
        return False
    want = XExtensionManager().get_by_prefix(key[:key.index(":")]) if ":" in key else None
    if a.get_extension() is not want:
        return False
    if n.tag == "string" and a.get_value() != (n.value or ""):
        return False
    if n.tag in ("int", "float") and (a.get_value() != n.value or type(a.get_value()) is not type(n.value)):
        return False
    if n.tag == "boolean" and a.get_value() is not (n.value.lower() == "true"):
        return False
    if n.tag == "id" and a.get_value().get_uuid() != n.value:
        return False
    if n.tag == "date" and (a.get_value() != n.value or a.get_value().utcoffset() != n.value.utcoffset()):
        return False
    if n.tag in ("list", "container"):
        kept = [c for c in n.children if not c.dropped()]
        members = a.get_collection()
        return len(kept) == len(members) and all(reads(c, m) for c, m in zip(kept, members))
    return holds(n.children, a.get_attributes())


def holds(nodes, m):
    """The map m holds exactly the attributes of the nodes (the last one of equal keys), nothing else."""
    last = {}
    for c in nodes:
        if not c.dropped():
            last[key_of(c)] = c
    return list(m.keys()) == list(last.keys()) and all(reads(last[k], m[k]) for k in last)


@lemma("C03", mode="bounded", weight=6)
def documents(g: Gen):
    r = g.r

    def many(depth=2):
        return [node(g, depth) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    globs = [(scope, many(1)) for scope in r.sample(["trace", "event", "Trace", "EVENT"], r.choice([0, 1, 2]))]
    log_attrs = many()
    traces = [(many(1), [many(1) for _ in range(r.choice([0, 1, 2]))]) for _ in range(r.choice([0, 1, 2]))]
    parts_ = []
    for scope, ns in globs:
        parts_.append("<global scope='%s'>%s</global>" % (scope, "".join(text(g, n) for n in ns)))
    exts = r.sample(["concept", "org", "time", "nosuch"], r.choice([0, 1, 2]))
    for p in exts:
        parts_.append("<extension name='x' prefix='%s' uri='http://x/%s'/>" % (p, p) if r.random() < .8 or p == "nosuch"
                      else "<extension name='x' uri='http://www.xes-standard.org/%s.xesext'/>" % p)
    if r.random() < .3:
        parts_.append("<extension name='x'/>")
    cls = [(r.choice(["c", "d e", ""]), [r.choice(["concept:name", "a b", "k"]) for _ in range(r.choice([1, 2, 3]))])
           for _ in range(r.choice([0, 1, 2]))]
    for nm, ks in cls:
        parts_.append("<classifier name=%s keys=%s/>" % (esc(nm), esc(" ".join("'%s'" % k if " " in k or r.random() < .2 else k for k in ks))))
    if r.random() < .2:
        parts_.append(r.choice(["<classifier name='c'/>", "<classifier keys='c'/>"]))
    body = [("a", n) for n in log_attrs]
    k = r.randint(0, len(body))
    seq = body[:k] + [("t", t) for t in traces] + body[k:]
    for what, x in seq:
        if what == "a":
            parts_.append(text(g, x))
        else:
            ta, evs = x
            mid = r.randint(0, len(ta))
            parts_.append("<trace>" + "".join(text(g, n) for n in ta[:mid])
                          + "".join("<event>" + "".join(text(g, n) for n in ev) + "</event>" for ev in evs)
                          + "".join(text(g, n) for n in ta[mid:]) + "</trace>")
    doc = "<?xml version='1.0' encoding='UTF-8'?><log xes.version='1.0' openxes.version='1.0RC7' other='1'>" + "\n".join(parts_) + "</log>"
    g.made = [doc]
    out = XesXmlParser().parse(io.BytesIO(doc.encode("utf-8")))
    ensures(len(out) == 1, "one log is read")
    log = out[0]
    ensures(holds(log_attrs, log.get_attributes()), "log attributes are exactly those written directly in the log")
    ensures(len(log) == len(traces), "every trace is read, in order")
    for t, (ta, evs) in zip(log, traces):
        ensures(holds(ta, t.get_attributes()), "trace attributes are exactly those written directly in the trace")
        ensures(len(t) == len(evs), "every event is read in its trace")
        for e, ev in zip(t, evs):
            ensures(holds(ev, e.get_attributes()), "event attributes are exactly those written directly in the event")
    for scope, lst in (("trace", log.get_global_trace_attributes()), ("event", log.get_global_event_attributes())):
        want = [n for s, ns in globs if s.lower() == scope for n in ns if not n.dropped()]
        ensures(len(want) == len(lst) and all(reads(n, a) for n, a in zip(want, lst)), "global attributes of the " + scope + " scope")
    ensures([(c.name(), list(c.get_defining_attribute_keys())) for c in log.get_classifiers()] == [c for c in cls if c[0] != ""],
            "classifiers with a name and keys are read")
    ensures({e.get_prefix() for e in log.get_extensions()} == {p for p in exts if p != "nosuch"}, "registered extensions are read")
    ensures(log.get_features() == {"xes.version": "1.0", "openxes.version": "1.0RC7"}, "features of the log element")


# ---- documents of a fixed shape with any texts, proved; nested content of any depth is the induction of C01

def read_doc(root):
    return XesXmlParser().parse(io.BytesIO(ET.tostring(root, encoding="utf-8")))[0]


def put(parent, tag, key, value):
    e = ET.SubElement(parent, tag)
    if key is not None:
        e.set("key", key)
    if value is not None:
        e.set("value", value)
    return e


def has(m, k, v):
    """The map holds a literal attribute with this key and value."""
    return k in m and type(m[k]) is XAttributeLiteral and m[k].get_key() == k and m[k].get_value() == v


WHEN = datetime(2010, 1, 2, 3, 4, 5, 6000, timezone(timedelta(hours=7, minutes=30)))
STRING = Const("string", "STRING", "String")


@lemma("C03")
def one_on_each_level(tag: STRING, k: XmlStr, v: XmlStr):
    log = ET.Element("log")
    put(log, tag, k, v + "1")
    trace = ET.SubElement(log, "trace")
    put(trace, tag, k, v + "2")
    event = ET.SubElement(trace, "event")
    put(event, tag, k, v + "3")
    back = read_doc(log)
    ensures(len(back) == 1 and len(back[0]) == 1, "one trace with one event is read")
    for m, w in ((back.get_attributes(), v + "1"), (back[0].get_attributes(), v + "2"), (back[0][0].get_attributes(), v + "3")):
        ensures(len(m) == 1 and has(m, k, w), "an attribute belongs to the element that encloses it")
        ensures(len(m[k].get_attributes()) == 0, "nothing is nested in it")


@lemma("C03", mode="induction")
def upper_levels(ts: Const("trace", "TRACE", "Trace"), es: Const("event", "EVENT", "Event"), ls: Const("log", "LOG"), k: XmlStr, v: XmlStr):
    log = ET.Element(ls)
    for w in ("1", "2"):
        trace = ET.SubElement(log, ts)
        put(trace, "string", k, v + w)
        for x in ("3", "4"):
            put(ET.SubElement(trace, es), "string", k, v + w + x)
    back = read_doc(log)
    ensures(len(back) == 2 and len(back[0]) == 2 and len(back[1]) == 2, "traces and events are read")
    for t, w in zip(back, ("1", "2")):
        ensures(len(t.get_attributes()) == 1 and has(t.get_attributes(), k, v + w), "traces keep their order and attributes")
        for e, x in zip(t, ("3", "4")):
            ensures(len(e.get_attributes()) == 1 and has(e.get_attributes(), k, v + w + x), "events keep their order and attributes")
    ensures(len(back.get_attributes()) == 0, "the log has no attributes")


@lemma("C03", mode="induction")
def any_interleaving(k: XmlStr, l: XmlStr, m: XmlStr, v: XmlStr):
    requires(k != l and l != m and k != m and k != l + "1" and k != l + "2" and m != l + "1" and m != l + "2")
    log = ET.Element("log")
    put(log, "string", k, v)
    for _ in (1, 2):
        trace = ET.SubElement(log, "trace")
        put(trace, "string", k, v)
        event = ET.SubElement(trace, "event")
        put(event, "string", k, v)
        put(trace, "string", l, v)
        event = ET.SubElement(trace, "event")
        put(event, "string", l, v)
        put(trace, "string", m, v)
        put(log, "string", l + str(_), v)
    put(log, "string", m, v)
    back = read_doc(log)
    ensures(list(back.get_attributes().keys()) == [k, l + "1", l + "2", m], "attributes of the log between and after traces")
    ensures(len(back) == 2, "two traces")
    for t in back:
        ensures(list(t.get_attributes().keys()) == [k, l, m], "attributes of a trace between and after events")
        ensures(len(t) == 2 and list(t[0].get_attributes().keys()) == [k] and list(t[1].get_attributes().keys()) == [l],
                "each event has its own attributes")


@lemma("C03", mode="induction")
def nested_in(outer: Const("string", "int", "float", "boolean", "INT", "Boolean"), inner: STRING, k: XmlStr, l: XmlStr, v: XmlStr, w: XmlStr):
    requires(k != l)
    log = ET.Element("log")
    event = ET.SubElement(ET.SubElement(log, "trace"), "event")
    for parent in (log, event):
        a = put(parent, outer, k, "1")
        b = put(a, inner, l, v)
        put(b, inner, k, w)
        put(a, inner, k, w)
        put(parent, inner, l, w)
    back = read_doc(log)
    for m in (back.get_attributes(), back[0][0].get_attributes()):
        ensures(list(m.keys()) == [k, l], "the attributes directly in the element")
        n = m[k].get_attributes()
        ensures(list(n.keys()) == [l, k] and has(n, l, v) and has(n, k, w), "the attributes nested in the attribute")
        ensures(len(n[l].get_attributes()) == 1 and has(n[l].get_attributes(), k, w), "the attributes nested two levels deep")
        ensures(len(n[k].get_attributes()) == 0 and has(m, l, w) and len(m[l].get_attributes()) == 0, "nothing is nested elsewhere")


@lemma("C03", mode="induction")
def collected_in(outer: Const("list", "container", "LIST", "Container"), inner: STRING, k: XmlStr, l: XmlStr, v: XmlStr, w: XmlStr):
    requires(k != l)
    log = ET.Element("log")
    event = ET.SubElement(ET.SubElement(log, "trace"), "event")
    for parent in (log, event):
        a = put(parent, outer, k, None)
        b = put(a, inner, l, v)
        put(b, inner, k, w)
        put(a, inner, l, w)
        put(put(a, outer, k, None), inner, k, v)
        put(parent, inner, l, w)
    back = read_doc(log)
    for m in (back.get_attributes(), back[0][0].get_attributes()):
        ensures(list(m.keys()) == [k, l], "the attributes directly in the element")
        c = list(m[k].get_collection())
        ensures(isinstance(m[k], XAttributeCollection) and len(c) == 3, "members are read in order, equal keys included")
        ensures(c[0].get_key() == l and c[0].get_value() == v and c[1].get_key() == l and c[1].get_value() == w, "the members are those written")
        ensures(len(c[0].get_attributes()) == 1 and has(c[0].get_attributes(), k, w), "attributes nested in a member")
        d = list(c[2].get_collection())
        ensures(type(c[2]) is type(m[k]) and len(d) == 1 and d[0].get_key() == k and d[0].get_value() == v, "a collection in a collection")
        ensures(has(m, l, w) and len(m[l].get_attributes()) == 0, "the attribute after the collection")


@lemma("C03", mode="induction")
def bad_dates(tag: Const("date", "DATE", "Date"), bad: Const("", "yesterday", "2010-13-01T00:00:00", "Z", None), k: XmlStr, l: XmlStr, v: XmlStr):
    requires(k != l and k not in ("a", "b", "s", "t"))
    log = ET.Element("log")
    event = ET.SubElement(ET.SubElement(log, "trace"), "event")
    scalar = put(log, "string", "s", v)
    member = put(log, "list", "t", None)
    globe = ET.SubElement(log, "global")
    globe.set("scope", "event")
    for parent in (log, event, scalar, member, globe):
        put(parent, "string", "a", v)
        d = put(parent, tag, k, bad)
        put(d, "string", l, v)
        put(put(d, "list", "u", None), "string", l, v)
        put(parent, "string", "b", v)
    back = read_doc(log)
    ensures(list(back.get_attributes().keys()) == ["s", "t", "a", "b"], "the log has the attributes around the date, and not the date")
    e = back[0][0].get_attributes()
    ensures(list(e.keys()) == ["a", "b"] and has(e, "a", v) and has(e, "b", v), "the event has the attributes around the date")
    s = back.get_attributes()["s"].get_attributes()
    ensures(list(s.keys()) == ["a", "b"] and has(s, "a", v) and has(s, "b", v), "the attribute has what is nested around the date")
    c = list(back.get_attributes()["t"].get_collection())
    ensures([x.get_key() for x in c] == ["a", "b"], "the list has the members around the date")
    ensures([x.get_key() for x in back.get_global_event_attributes()] == ["a", "b"], "the globals are those around the date")


@lemma("C03")
def missing_parts(v: XmlStr, k: XmlStr):
    log = ET.Element("log")
    put(log, "string", None, v)
    trace = ET.SubElement(log, "trace")
    put(trace, "string", k, None)
    put(ET.SubElement(trace, "event"), "string", None, None)
    back = read_doc(log)
    ensures(len(back.get_attributes()) == 1 and has(back.get_attributes(), "UNKNOWN", v), "an attribute without a key has the key UNKNOWN")
    ensures(len(back[0].get_attributes()) == 1 and has(back[0].get_attributes(), k, ""), "a literal without a value is empty")
    ensures(len(back[0][0].get_attributes()) == 1 and has(back[0][0].get_attributes(), "UNKNOWN", ""), "neither key nor value")


@lemma("C03", mode="induction")
def scopes(st: Const("trace", "TRACE", "Trace"), se: Const("event", "EVENT", "Event"), g: Const("global", "GLOBAL"), k: XmlStr, v: XmlStr, w: XmlStr):
    log = ET.Element("log")
    a = ET.SubElement(log, g)
    a.set("scope", se)
    put(put(a, "string", k, v), "string", k, w)
    put(a, "string", k, w)
    b = ET.SubElement(log, g)
    b.set("scope", st)
    put(b, "int", k, "7")
    put(put(b, "list", k, None), "string", k, v)
    put(log, "string", k, v)
    back = read_doc(log)
    ge, gt = back.get_global_event_attributes(), back.get_global_trace_attributes()
    ensures(len(ge) == 2 and len(gt) == 2, "global attributes of each scope")
    ensures(ge[0].get_key() == k and ge[0].get_value() == v and ge[1].get_value() == w, "global event attributes in order")
    ensures(len(ge[0].get_attributes()) == 1 and has(ge[0].get_attributes(), k, w) and len(ge[1].get_attributes()) == 0, "nested in a global")
    ensures(type(gt[0]) is XAttributeDiscrete and gt[0].get_value() == 7 and gt[0].get_key() == k, "global trace attributes")
    ensures(type(gt[1]) is XAttributeList and [x.get_value() for x in gt[1].get_collection()] == [v], "members of a global list")
    ensures(len(back.get_attributes()) == 1 and has(back.get_attributes(), k, v), "an attribute after the globals belongs to the log")


@lemma("C03")
def prefixes(k: XmlStr, v: XmlStr, declared: bool):
    log = ET.Element("log")
    if declared:
        for p in ("concept", "org", "time"):
            ET.SubElement(log, "extension").set("prefix", p)
    for p in ("concept", "org", "time"):
        put(log, "string", p + ":" + k, v)
    put(log, "string", k, v)
    requires(":" not in k)
    back = read_doc(log)
    for p in ("concept", "org", "time"):
        a = back.get_attributes()[p + ":" + k]
        ensures(a.get_extension() is XExtensionManager().get_by_prefix(p), "the extension of the prefix, declared or not")
        ensures(declared == (XExtensionManager().get_by_prefix(p) in back.get_extensions()), "the declared extensions are those of the log")
    ensures(back.get_attributes()[k].get_extension() is None, "a key without a prefix belongs to no extension")


@lemma("C03", mode="induction")
def any_kind(k: XmlStr, v: XmlStr, n: int, r: float, b: bool, u: uuid.UUID, tags: Const(0, 1, 2)):
    names = [t if tags == 0 else t.upper() if tags == 1 else t.capitalize() for t in TAGS]
    log = ET.Element("log")
    event = ET.SubElement(ET.SubElement(log, "trace"), "event")
    texts = (v, "2010-01-02T03:04:05.006+07:30", str(n), str(r), "true" if b else "no", str(u), None, None)
    for parent in (log, event):
        for t, x in zip(names, texts):
            put(parent, t, t.lower() + k, x)
    back = read_doc(log)
    for m in (back.get_attributes(), back[0][0].get_attributes()):
        ensures(list(m.keys()) == [t + k for t in TAGS], "attributes of every kind in order")
        for t in TAGS:
            ensures(type(m[t + k]) is CLS[t] and m[t + k].get_key() == t + k, "the kind is that of the tag")
        ensures(m["string" + k].get_value() == v and m["int" + k].get_value() == n and m["float" + k].get_value() == r, "texts and numbers")
        ensures(m["boolean" + k].get_value() is b and m["id" + k].get_value().get_uuid() == u, "truth values and identifiers")
        d = m["date" + k].get_value()
        ensures(d == WHEN and d.utcoffset() == WHEN.utcoffset(), "dates")
        ensures(len(m["list" + k].get_collection()) == 0 and len(m["container" + k].get_collection()) == 0, "empty collections")


# ---- documents of any depth and size: by induction over the nesting (as in C01; these lemmas together are the contract of reading
# what put_all writes).  All tags are in upper case and every attribute has in it a date
# that cannot be read, which has an attribute in it.

def put_all(parent, key, attrs):
    """Writes the attributes as elements in parent, each with a date that cannot be read in it."""
    for a in attrs:
        e = ET.SubElement(parent, TAG_OF[type(a)].upper())
        e.set("key", a.get_key())
        put(put(e, "DATE", key, "yesterday"), "string", key, "v")
        if isinstance(a, XAttributeCollection):
            put_all(e, key, a.get_collection())
        else:
            e.set("value", str(a))
            put_all(e, key, a.get_attributes().values())


def back_of(attrs, place):
    log = ET.Element("LOG")
    trace = ET.SubElement(log, "TRACE")
    put_all((log, trace, ET.SubElement(trace, "EVENT"))[place], "k", attrs)
    h = read_doc(log)
    return (h, h[0], h[0][0])[place].get_attributes()


@lemma("C03", mode="induction", heavy=True, depth=1)
def map_in_log(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m.values(), 0)), "the attributes of a log are those directly in it")


@lemma("C03", mode="induction", heavy=True, depth=1)
def map_in_trace(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m.values(), 1)), "the attributes of a trace are those directly in it")


@lemma("C03", mode="induction", heavy=True, depth=1)
def map_in_event(m: Xml[XAttributeMap]):
    ensures(same_map(m, back_of(m.values(), 2)), "the attributes of an event are those directly in it")


@lemma("C03", mode="induction", heavy=True, depth=2)
def map_nested(m: Xml[XAttributeMap]):
    a = XAttributeLiteral("k", "v")
    a.set_attributes(m)
    ensures(same_map(m, back_of([a], 0)["k"].get_attributes()), "the attributes of an attribute are those directly in it")


def of_list(a, back):
    ensures(type(a) is type(back), "the kind of the collection")
    ensures(same_attrs(a.get_collection(), back.get_collection()), "the members are those directly in the collection")


@lemma("C03", mode="induction", heavy=True, depth=2)
def list_nested(xs: List[Xml[XAttribute]]):
    a = XAttributeList("k")
    for x in xs:
        a.add_to_collection(x)
    of_list(a, back_of([a], 0)["k"])


@lemma("C03", mode="induction", heavy=True, depth=2)
def container_nested(xs: List[Xml[XAttribute]]):
    a = XAttributeContainer("k")
    for x in xs:
        a.add_to_collection(x)
    of_list(a, back_of([a], 0)["k"])


def globals_of(attrs):
    log = ET.Element("LOG")
    ET.SubElement(log, "GLOBAL").set("scope", "Event")
    put_all(log[0], "k", attrs)
    return read_doc(log).get_global_event_attributes()


@lemma("C03", mode="induction", heavy=True, depth=1)
def globals_back(gs: List[Xml[XAttribute]]):
    ensures(same_attrs(gs, globals_of(gs)), "the global attributes are those directly in the global element")


@lemma("C03", mode="induction", heavy=True, depth=2)
def map_nested_in_global(m: Xml[XAttributeMap]):
    a = XAttributeLiteral("k", "v")
    a.set_attributes(m)
    ensures(same_map(m, globals_of([a])[0].get_attributes()), "the attributes of a global attribute are those directly in it")


@lemma("C03", mode="induction", heavy=True, depth=2)
def list_nested_in_global(xs: List[Xml[XAttribute]]):
    a = XAttributeList("k")
    for x in xs:
        a.add_to_collection(x)
    of_list(a, globals_of([a])[0])


@lemma("C03", mode="induction", heavy=True, depth=2)
def container_nested_in_global(xs: List[Xml[XAttribute]]):
    a = XAttributeContainer("k")
    for x in xs:
        a.add_to_collection(x)
    of_list(a, globals_of([a])[0])


@lemma("C03", mode="induction", weight=2)
def any_document(log: Xml[XLog]):
    doc = ET.Element("LOG")
    for scope, gs in (("EVENT", log.get_global_event_attributes()), ("Trace", log.get_global_trace_attributes())):
        e = ET.SubElement(doc, "GLOBAL")
        e.set("scope", scope)
        put_all(e, "k", gs)
    for t in log:
        trace = ET.SubElement(doc, "TRACE")
        for e in t:
            put_all(ET.SubElement(trace, "EVENT"), "k", e.get_attributes().values())
        put_all(trace, "k", t.get_attributes().values())
    put_all(doc, "k", log.get_attributes().values())
    back = read_doc(doc)
    ensures(same_map(log.get_attributes(), back.get_attributes()), "log attributes are exactly those written directly in the log")
    ensures(len(back) == len(log) and all(len(s) == len(t) for s, t in zip(log, back)), "every trace and event is read, in order")
    ensures(all(same_trace(s, t) for s, t in zip(log, back)), "trace and event attributes are exactly those written directly in them")
    ensures(same_attrs(log.get_global_trace_attributes(), back.get_global_trace_attributes()), "global attributes of the trace scope")
    ensures(same_attrs(log.get_global_event_attributes(), back.get_global_event_attributes()), "global attributes of the event scope")
