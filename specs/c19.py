"""C19 — extension definitions: every declared attribute ends up on its level, with its kind, prefixed key and aliases."""
import xml.sax
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.extension import XExtensionParser as module
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.XExtension import XExtension
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

LEVELS = ("log", "trace", "event", "meta")
TAGS = (("string", XAttributeLiteral), ("date", XAttributeTimestamp), ("int", XAttributeDiscrete), ("float", XAttributeContinuous),
        ("boolean", XAttributeBoolean), ("id", XAttributeID))


class Offline:
    """Answers every download with nothing (no network access)."""

    def __init__(self, content=b""):
        self.content = content
        self.asked = []

    def __enter__(self):
        self.real = module.request.urlopen
        module.request.urlopen = self.answer
        return self

    def answer(self, url, *a, **k):
        self.asked.append(url)
        return io.BytesIO(self.content)

    def __exit__(self, *a):
        module.request.urlopen = self.real


def at(ext, level):
    return {"log": ext.get_log_attributes, "trace": ext.get_trace_attributes, "event": ext.get_event_attributes,
            "meta": ext.get_meta_attributes}[level]()


def word(g):
    return "".join(g.r.choice("abcdefXYZ09_-.é &<'\"") for _ in range(g.r.choice([1, 2, 5])))


def definition(g):
    """A definition and what it declares: (text, name, prefix, uri, {(level, key): (kind, {mapping: alias})})."""
    r = g.r
    case = r.choice([str.lower, str.lower, str.upper, str.title])
    name, prefix, uri = word(g), word(g), "http://e.x/%d.xesext" % r.randrange(10 ** 6)
    out = ["<xesextension name=%s prefix=%s uri=%s>" % (quoteattr(name), quoteattr(prefix), quoteattr(uri))]
    if g.chance(.3):
        out[0] = out[0].replace("xesextension", "XESExtension", 1)
    root = "XESExtension" if "XESExtension" in out[0] else "xesextension"
    declared = {}
    for level in r.sample(LEVELS, r.choice([1, 2, 3, 4, 4])):
        out.append("<%s>" % level)
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            tag, cls = r.choice(TAGS)
            t = case(tag)
            key = word(g)
            full = prefix + ":" + key
            if any(k == full for _, k in declared):
                continue
            aliases = {}
            out.append("<%s key=%s>" % (t, quoteattr(key)))
            for m in r.sample(["EN", "DE", "FR", "XX"], r.choice([0, 0, 1, 2, 3])):
                aliases[m] = word(g)
                out.append("<alias mapping=%s name=%s/>" % (quoteattr(m), quoteattr(aliases[m])))
            out.append("</%s>" % t)
            declared[(level, full)] = (cls, aliases)
            if g.chance(.15):
                out.append("<%s mapping='outside' name='x'/>" % r.choice(["alias", "ALIAS"]))
        out.append("</%s>" % level)
    out.append("</%s>" % root)
    sep = r.choice(["", "\n", "\n  "])
    return "<?xml version='1.0' encoding='UTF-8'?>" + sep.join([""] + out), name, prefix, uri, declared


def check(ext, name, prefix, uri, declared):
    ensures(ext.get_name() == name and ext.get_prefix() == prefix and ext.get_uri().geturl() == uri, "the name, prefix and URI of the definition")
    for level in LEVELS:
        got = {a.get_key(): a for a in at(ext, level)}
        want = {k: v for (l, k), v in declared.items() if l == level}
        ensures(len(at(ext, level)) == len(got) and set(got) == set(want), "every attribute is declared on its level, under its prefixed key")
        for k, (cls, _) in want.items():
            ensures(type(got[k]) is cls, "every attribute has the kind of its tag")
            ensures(got[k].get_extension() is ext, "every attribute belongs to the extension")
    allk = sorted(a.get_key() for a in ext.get_defined_attributes())
    ensures(allk == sorted(k for _, k in declared), "the defined attributes are those of all levels")


@lemma("C19", mode="bounded", weight=3)
def from_a_file(g: Gen):
    text, name, prefix, uri, declared = definition(g)
    g.made = [text]
    with Scratch() as d, Offline():
        path = os.path.join(d, "x.xesext")
        with open(path, "w") as f:
            f.write(text)
        ext = XExtensionParser().parse(path)
    check(ext, name, prefix, uri, declared)
    names = XGlobalAttributeNameMap()
    for (_, k), (_, aliases) in declared.items():
        for m, alias in aliases.items():
            ensures(names.get_mapping(m).map(k) == alias, "aliases are known under their mapping")
        ensures(names.get_mapping("outside").map(k) is None, "an alias outside an attribute belongs to none")


@lemma("C19", mode="bounded", weight=1)
def from_a_download(g: Gen):
    text, name, prefix, uri, declared = definition(g)
    g.made = [text]
    with Offline(text.encode("utf-8")):
        ext = XExtensionParser().parse(uri)
    check(ext, name, prefix, uri, declared)


@lemma("C19", mode="bounded", weight=1)
def one_after_another(g: Gen):
    """Definitions read one after another do not mix."""
    ds = [definition(g) for _ in range(g.r.choice([2, 3]))]
    g.made = [d[0] for d in ds]
    exts = []
    for d in ds:
        with Offline(d[0].encode("utf-8")):
            exts.append(XExtensionParser().parse(d[3]))
    for d, ext in zip(ds, exts):
        check(ext, *d[1:])
    ensures(len({id(x) for x in exts}) == len(exts), "every definition gives its own extension")


@lemma("C19", mode="bounded", weight=1)
def directory(g: Gen):
    with Scratch() as d, Offline():
        ensures(XExtensionParser().parse(d) is None, "a directory defines no extension")


# ---- definitions of a fixed shape with any texts

def reading(root, uri):
    with Offline(ET.tostring(root, encoding="utf-8")):
        return XExtensionParser().parse(uri)


def defining(name, prefix, uri, tag="xesextension"):
    root = ET.Element(tag)
    root.set("name", name)
    root.set("prefix", prefix)
    root.set("uri", uri)
    return root


def declare(level, tag, key, aliases=()):
    e = ET.SubElement(level, tag)
    e.set("key", key)
    for m, a in aliases:
        x = ET.SubElement(e, "alias")
        x.set("mapping", m)
        x.set("name", a)
    return e


URI = "http://e.x/1.xesext"


def declared(attrs, ext, keys):
    """Exactly these keys, each as an attribute of its kind that belongs to the extension."""
    attrs = list(attrs)
    ensures(len(attrs) == len(keys), "exactly the attributes of this level are declared on it")
    for k, c in keys:
        found = [a for a in attrs if a.get_key() == k]
        ensures(len(found) == 1 and type(found[0]) is c, "the attribute has its prefixed key and the kind of its tag")
        ensures(found[0].get_extension() is ext, "the attribute belongs to the extension")


@lemma("C19")
def every_kind(level: Const("log", "trace", "event", "meta"), case: Const(0, 1, 2), name: XmlStr, prefix: XmlStr, key: XmlStr):
    root = defining(name, prefix, URI)
    e = ET.SubElement(root, level)
    for t, _ in TAGS:
        declare(e, t if case == 0 else t.upper() if case == 1 else t.capitalize(), t + key)
    ext = reading(root, URI)
    ensures(ext.get_name() == name and ext.get_prefix() == prefix and ext.get_uri().geturl() == URI, "the name, prefix and URI of the definition")
    for l in LEVELS:
        declared(at(ext, l), ext, [(prefix + ":" + t + key, c) for t, c in TAGS] if l == level else [])


@lemma("C19")
def every_level(case: Const(0, 1, 2), tag: Const("string", "INT", "Date", "id"), prefix: XmlStr, k: XmlStr, l: XmlStr):
    requires(k != l)
    root = defining("n", prefix, URI, ("xesextension", "XESEXTENSION", "XesExtension")[case])
    for level in LEVELS:
        e = ET.SubElement(root, level if case == 0 else level.upper() if case == 1 else level.capitalize())
        declare(e, tag, level + k)
        declare(e, tag, level + l)
    ext = reading(root, URI)
    cls = dict(TAGS)[tag.lower()]
    for level in LEVELS:
        declared(at(ext, level), ext, [(prefix + ":" + level + k, cls), (prefix + ":" + level + l, cls)])


@lemma("C19")
def aliases(tag: Const("string", "date", "int", "float", "boolean", "id"), alias: Const("alias", "ALIAS"), level: Const("log", "trace", "event", "meta"),
            prefix: XmlStr, k: XmlStr, l: XmlStr, a: XmlStr, b: XmlStr, c: XmlStr):
    requires(k != l)
    names = XGlobalAttributeNameMap()
    root = defining("n", prefix, URI)
    e = ET.SubElement(root, level)
    for key, texts in ((k, (("P", a), ("Q", b))), (l, (("P", c),))):
        d = ET.SubElement(e, tag)
        d.set("key", key)
        for m, t in texts:
            x = ET.SubElement(d, alias)
            x.set("mapping", m)
            x.set("name", t)
    reading(root, URI)
    p, q = names.get_mapping("P"), names.get_mapping("Q")
    ensures(p.map(prefix + ":" + k) == a and q.map(prefix + ":" + k) == b, "the aliases of an attribute are known under their mappings")
    ensures(p.map(prefix + ":" + l) == c, "the aliases of the next attribute are its own")


@lemma("C19")
def two_definitions(level: Const("log", "trace", "event", "meta"), n1: XmlStr, p1: XmlStr, k1: XmlStr, n2: XmlStr, p2: XmlStr, k2: XmlStr):
    r1, r2 = defining(n1, p1, URI), defining(n2, p2, "http://e.x/2.xesext")
    declare(ET.SubElement(r1, level), "string", k1)
    declare(ET.SubElement(r2, level), "int", k2)
    ET.SubElement(r2, "log")
    x = reading(r1, URI)
    y = reading(r2, "http://e.x/2.xesext")
    ensures(x is not y and x.get_name() == n1 and y.get_name() == n2 and x.get_prefix() == p1 and y.get_prefix() == p2,
            "every definition gives its own extension")
    for l in LEVELS:
        declared(at(x, l), x, [(p1 + ":" + k1, XAttributeLiteral)] if l == level else [])
        declared(at(y, l), y, [(p2 + ":" + k2, XAttributeDiscrete)] if l == level else [])


def only(attrs, ext, c, prefix, ks):
    ensures(all(any(a.get_key() == prefix + ":" + k for k in ks) and type(a) is c and a.get_extension() is ext for a in attrs),
            "nothing else is declared on this level")


def with_events(prefix, ks):
    root = defining("n", prefix, URI)
    e = ET.SubElement(root, "event")
    for k in ks:
        declare(e, "string", k)
    return reading(root, URI)


@lemma("C19", mode="induction")
def nothing_else(prefix: XmlStr, ks: List[XmlStr]):
    ext = with_events(prefix, ks)
    only(ext.get_event_attributes(), ext, XAttributeLiteral, prefix, ks)
    for l in ("log", "trace", "meta"):
        ensures(len(at(ext, l)) == 0, "nothing is declared on the other levels")


@lemma("C19", mode="induction")
def any_number(prefix: XmlStr, ks: List[XmlStr]):
    es = with_events(prefix, ks).get_event_attributes()
    ensures(all(any(a.get_key() == prefix + ":" + k for a in es) for k in ks), "every attribute of the level is declared")


@lemma("C19", mode="bounded")
def any_number_with_aliases(prefix: XmlStr, ks: List[XmlStr]):
    root = defining("n", prefix, URI)
    e = ET.SubElement(root, "meta")
    for k in ks:
        declare(e, "int", k, (("P", k),))
    ext = reading(root, URI)
    only(ext.get_meta_attributes(), ext, XAttributeDiscrete, prefix, ks)
    p = XGlobalAttributeNameMap().get_mapping("P")
    ensures(all(p.map(prefix + ":" + k) == k for k in ks), "every alias is known for the attribute that encloses it")
