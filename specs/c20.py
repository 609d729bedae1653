"""C20 — files: the format is chosen by the suffix, in any case, and each format's reader and writer agree."""
import gzip
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XLog import XLog
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer


@lemma("C20")
def suffix_exactly(s: str):
    t = s.lower()
    ensures(XesXmlParser().can_parse(s) == t.endswith(".xes"), "XES files end in .xes")
    ensures(XesXmlGZIPParser().can_parse(s) == t.endswith(".xes.gz"), "compressed XES files end in .xes.gz")
    ensures(XMxmlParser().can_parse(s) == (t.endswith(".mxml") or t.endswith(".xml")), "MXML files end in .mxml or .xml")
    ensures(XMxmlGZIPParser().can_parse(s) == t.endswith(".mxml.gz"), "compressed MXML files end in .mxml.gz")


@lemma("C20")
def any_stem(s: str):
    ensures(XesXmlParser().can_parse(s + ".xes") and XesXmlParser().can_parse(s + ".XES") and XesXmlParser().can_parse(s + ".XeS"), "XES")
    ensures(XesXmlGZIPParser().can_parse(s + ".xes.gz") and XesXmlGZIPParser().can_parse(s + ".Xes.GZ"), "compressed XES")
    ensures(XMxmlParser().can_parse(s + ".mxml") and XMxmlParser().can_parse(s + ".XML"), "MXML")
    ensures(XMxmlGZIPParser().can_parse(s + ".mxml.gz") and XMxmlGZIPParser().can_parse(s + ".MXML.gz"), "compressed MXML")
    ensures(not XesXmlParser().can_parse(s + ".xes.gz") and not XesXmlGZIPParser().can_parse(s + ".xes"), "compressed and plain XES are told apart")
    ensures(not XMxmlParser().can_parse(s + ".mxml.gz") and not XMxmlGZIPParser().can_parse(s + ".mxml"), "compressed and plain MXML are told apart")
    ensures(not XesXmlParser().can_parse(s + ".mxml") and not XMxmlParser().can_parse(s + ".xes"), "XES and MXML are told apart")


SUFFIXES = (".xes", ".xes.gz", ".mxml", ".xml", ".mxml.gz")


@lemma("C20")
def universal(s: str):
    t = s.lower()
    ensures(XUniversalParser.can_parse(s) == (t.endswith(".xes") or t.endswith(".xes.gz") or t.endswith(".mxml") or t.endswith(".xml")
                                              or t.endswith(".mxml.gz")), "exactly the files of a known format can be parsed")
    ensures(count([XesXmlParser(), XesXmlGZIPParser(), XMxmlParser(), XMxmlGZIPParser()], lambda p: p.can_parse(s)) <= 1,
            "at most one format claims a file")


@lemma("C20", mode="bounded", weight=2)
def near_suffixes(g: Gen):
    base = g.r.choice(SUFFIXES + (".xez", ".zip", ".gz", "xes", ".xes.", ".xes.gz.bak", ".gz.xes", ""))
    s = g.string() + base + g.r.choice(["", "", "", " ", "x", "\n"])
    s = g.r.choice([s, s.upper(), s.swapcase(), s.title()])
    g.made = [s]
    suffix_exactly(s)
    universal(s)


def summary(log):
    return [[(a.get_key(), str(a)) for a in e.get_attributes().values()] for t in log for e in t]


def small_log(g):
    log = g.log(depth=0, xml=True, ms=True, full=False)
    for t in log:
        for e in t:
            for k, a in list(e.get_attributes().items()):
                if a.get_key().strip() != a.get_key() or "\r" in str(a) or k == "semantic:modelReference" or k in ("org:role", "org:group") \
                        or (k in ("concept:name", "lifecycle:transition", "org:resource") and not isinstance(a, XAttributeLiteral)) \
                        or k in ("lifecycle:transition", "org:resource", "concept:name") and str(a).strip() in ("", "UNKNOWN") \
                        or (k == "time:timestamp" and not isinstance(a, XAttributeTimestamp)):
                    del e.get_attributes()[k]
                else:
                    a.get_attributes().clear()
    for m in [log.get_attributes()] + [t.get_attributes() for t in log]:
        for k in ("concept:name", "time:timestamp", "semantic:modelReference"):
            if k in m:
                del m[k]
    return log


@lemma("C20", mode="bounded", weight=3)
def files(g: Gen):
    log = small_log(g)
    g.made = [log]
    suffix, cls, packed = g.r.choice([(".xes", XesXmlSerializer, False), (".xes.gz", XesXmlGZIPSerializer, True),
                                      (".mxml", XMxmlSerializer, False), (".xml", XMxmlSerializer, False), (".mxml.gz", XMxmlGZIPSerializer, True)])
    shown = g.r.choice([suffix, suffix, suffix.upper(), suffix.title()])
    with Scratch() as d:
        path = os.path.join(d, "f" + shown)
        if packed:
            cls().serialize(log, open(path, "wb"))
            with open(path, "rb") as f:
                ensures(gzip.decompress(f.read()).startswith(b"<?xml"), "a compressed file holds a gzip of the document")
        else:
            with open(path, "w", encoding="utf-8", newline="") as f:
                cls().serialize(log, f)
        with open(path, "rb") as f:
            got = XUniversalParser.parse(f)
    plain = io.StringIO()
    (XesXmlSerializer if "xes" in suffix else XMxmlSerializer)().serialize(log, plain)
    direct = (XesXmlParser if "xes" in suffix else XMxmlParser)().parse(io.BytesIO(plain.getvalue().encode("utf-8")))
    ensures(len(got) == len(direct) == 1, "one log is read")
    ensures(same_content(got[0], direct[0]) and same_header(got[0], direct[0]), "the file is read by the format of its suffix")
    kept = [t for t in log if len(t) > 0 or "xes" in suffix]
    ensures([len(t) for t in got[0]] == [len(t) for t in kept], "all events are read")


@lemma("C20", mode="bounded", weight=2)
def documents_of_any_number_of_logs(g: Gen):
    """Whatever a format's own parser makes of a document, an empty list included."""
    n = g.r.choice([0, 0, 1, 2, 3])
    names = [g.r.choice("abc") for _ in range(n)]
    entry = "<ProcessInstance id='i'><AuditTrailEntry><WorkflowModelElement>x</WorkflowModelElement></AuditTrailEntry></ProcessInstance>"
    mxml = "<WorkflowLog>%s</WorkflowLog>" % "".join("<Process id='%s'>%s</Process>" % (c, g.r.choice(["", entry])) for c in names)
    xes = "<log>%s</log>" % "".join("<trace>%s</trace>" % g.r.choice(["", "<event><string key='%s' value='1'/></event>" % c]) for c in names)
    text, suffix, cls = g.r.choice([(mxml, ".mxml", XMxmlParser), (mxml, ".xml", XMxmlParser), (mxml, ".mxml.gz", XMxmlParser),
                                    (xes, ".xes", XesXmlParser), (xes, ".xes.gz", XesXmlParser)])
    g.made = [text, suffix]
    data = text.encode("utf-8")
    with Scratch() as d:
        path = os.path.join(d, "f" + g.r.choice([suffix, suffix.upper()]))
        with open(path, "wb") as f:
            f.write(gzip.compress(data) if suffix.endswith("gz") else data)
        with open(path, "rb") as f:
            got = XUniversalParser.parse(f)
    direct = cls().parse(io.BytesIO(data))
    ensures(len(got) == len(direct) == (n if cls is XMxmlParser else 1), "the logs of the document, none included")
    for a, b in zip(got, direct):
        ensures(same_content(a, b) and same_header(a, b), "each log as the format's own parser reads it")


@lemma("C20", mode="bounded")
def broken_documents(g: Gen):
    """A document its format's parser does not accept is not read as anything else."""
    good = g.r.choice(["<log><trace><event/></trace></log>", "<WorkflowLog><Process id='p'/></WorkflowLog>"])
    text = g.r.choice([good[:g.r.randrange(len(good))], good.replace("</", "<"), good + "<", "", "x" + good, good + good])
    suffix = g.r.choice([".xes", ".mxml", ".xml", ".xes.gz", ".mxml.gz"])
    g.made = [text, suffix]
    data = text.encode("utf-8")
    with Scratch() as d:
        path = os.path.join(d, "f" + suffix)
        with open(path, "wb") as f:
            f.write(gzip.compress(data) if suffix.endswith("gz") else data)
        with open(path, "rb") as f:
            ensures(raised(lambda: XUniversalParser.parse(f)), "a broken document is rejected")


@lemma("C20", mode="bounded", weight=1)
def unknown_files(g: Gen):
    with Scratch() as d:
        path = os.path.join(d, "f" + g.r.choice([".txt", ".xes.zip", ".gz", ".xesx", ""]))
        with open(path, "w") as f:
            f.write(xes_text(g.log(depth=0, xml=True, full=False)))
        ensures(not XUniversalParser.can_parse(path), "an unknown suffix cannot be parsed")
        with open(path, "rb") as f:
            ensures(raised(lambda: XUniversalParser.parse(f)), "a file of an unknown format is rejected")


@lemma("C20")
def writers_name_their_suffixes():
    ensures(XesXmlSerializer().get_suffices() == ["xes"] and XMxmlSerializer().get_suffices() == ["mxml"], "plain formats")
    ensures("xes.gz" in XesXmlGZIPSerializer().get_suffices() and XMxmlGZIPSerializer().get_suffices() == ["mxml.gz"], "compressed formats")
