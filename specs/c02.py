"""C02 — the structure of a log survives an XES write and read, plain or compressed."""
import os
from xml.etree import ElementTree
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.model.XLog import XLog
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.utils.XTokenHelper import XTokenHelper


PARTS = {"extension": 0, "global": 1, "classifier": 2, "trace": 4}


def document(log, root):
    """What other readers of XES look at: version and features of the document, its parts in the order of the standard."""
    ensures(root.tag == "log" and root.get("xes.version") == "1.0" and "nested-attributes" in (root.get("xes.features") or "").split(),
            "an XES document with its version and features")
    parts = [PARTS.get(x.tag, 3) for x in root]
    ensures(parts == sorted(parts), "extensions, globals, classifiers, attributes and traces in this order")
    ensures(sorted((x.get("name"), x.get("prefix"), x.get("uri")) for x in root.findall("extension"))
            == sorted((x.get_name(), x.get_prefix(), x.get_uri().geturl()) for x in log.get_extensions()), "the extensions with name, prefix and location")
    ensures([x.tag for t in root.findall("trace") for x in t if x.tag == "event"] == ["event" for t in log for e in t], "traces of events")
    ensures(all(list(t).index(x) >= len(list(t)) - len(s) for s, t in zip(log, root.findall("trace")) for x in t.findall("event")),
            "the attributes of a trace come before its events")


@lemma("C02", mode="bounded", weight=5)
def structure(g: Gen):
    log = g.log(xml=True, ms=True)
    text = xes_text(log)
    back = parse_xes(text)
    document(log, ElementTree.fromstring(text))
    ensures(len(back) == len(log), "every trace is read back")
    ensures(all(len(s) == len(t) for s, t in zip(log, back)), "every event is read back in its trace")
    ensures(same_content(log, back), "attributes, traces and events are read back in order")
    ensures(same_attrs(log.get_global_trace_attributes(), back.get_global_trace_attributes()), "global trace attributes")
    ensures(same_attrs(log.get_global_event_attributes(), back.get_global_event_attributes()), "global event attributes")
    ensures([(c.name(), list(c.get_defining_attribute_keys())) for c in log.get_classifiers()]
            == [(c.name(), list(c.get_defining_attribute_keys())) for c in back.get_classifiers()], "classifiers")
    ensures(same_header(log, back), "extensions")


@lemma("C02", mode="bounded", weight=2)
def files(g: Gen):
    log = g.log(xml=True, ms=True)
    with Scratch() as d:
        plain, packed = os.path.join(d, "a.xes"), os.path.join(d, "a.xes.gz")
        with open(plain, "w", encoding="utf-8") as f:
            XesXmlSerializer().serialize(log, f)
        XesXmlGZIPSerializer().serialize(log, open(packed, "w"))
        with open(plain, "rb") as f:
            a = XesXmlParser().parse(f)
        b = XesXmlGZIPParser().parse(open(packed))
    ensures(len(a) == 1 and same_content(log, a[0]) and same_header(log, a[0]), "a plain file holds the log")
    ensures(len(b) == 1 and same_content(log, b[0]) and same_header(log, b[0]), "a compressed file holds the same log")


@lemma("C02", mode="bounded", weight=2)
def tokens(ks: List[Key]):
    requires(all("'" not in k and k.strip() != "" for k in ks))
    ensures(XTokenHelper.extract_tokens(XTokenHelper.format_token(ks)) == ks, "classifier keys are read back in order")


# ---- any log: the attributes of each element are written and read by contract (the induction lemmas of C01)

@lemma("C02", mode="induction", weight=2)
def traces_back(log: Xml[XLog]):
    log.get_classifiers().clear()
    back = parse_xes(xes_text(log))
    ensures(same_map(log.get_attributes(), back.get_attributes()), "log attributes are read back")
    ensures(len(back) == len(log), "every trace is read back")
    ensures(all(len(s) == len(t) for s, t in zip(log, back)), "every event is read back in its trace")
    ensures(all(same_map(s.get_attributes(), t.get_attributes()) for s, t in zip(log, back)), "trace attributes are read back")
    ensures(all(same_trace(s, t) for s, t in zip(log, back)), "attributes, traces and events are read back in order")
    ensures(same_attrs(log.get_global_trace_attributes(), back.get_global_trace_attributes()), "global trace attributes")
    ensures(same_attrs(log.get_global_event_attributes(), back.get_global_event_attributes()), "global event attributes")


@lemma("C02", mode="induction")
def classifiers_back(cs: List[XEventAttributeClassifier]):
    requires(all(c.name() != "" and len(c.get_defining_attribute_keys()) > 0 for c in cs))
    requires(all(all(k.strip() != "" and "'" not in k for k in c.get_defining_attribute_keys()) for c in cs))
    log = XLog(XAttributeMap())
    for c in cs:
        log.get_classifiers().append(c)
    back = parse_xes(xes_text(log)).get_classifiers()
    ensures(len(back) == len(cs), "every classifier is read back")
    ensures(all(c.name() == d.name() for c, d in zip(cs, back)), "classifiers keep their names and order")
    ensures(all(list(c.get_defining_attribute_keys()) == list(d.get_defining_attribute_keys()) for c, d in zip(cs, back)),
            "classifiers keep their keys in order")
