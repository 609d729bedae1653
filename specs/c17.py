"""C17 — registries and factories: what is registered is available, one default, one shared instance; factories build what is asked for."""
import uuid
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.utils.XRegistry import XRegistry
from opyenxes.factory.XFactory import XFactory
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension, XCostAmount, XCostDriver, XCostType
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.id.XID import XID
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

SHARED = (XFactoryRegistry, XParserRegistry, XSerializerRegistry, XExtensionManager, XExtensionParser, XConceptExtension, XCostExtension,
          XCostAmount, XCostDriver, XCostType, XIdentityExtension, XLifecycleExtension, XMicroExtension, XOrganizationalExtension,
          XSemanticExtension, XTimeExtension, XIDFactory, XGlobalAttributeNameMap)


@lemma("C17")
def first_becomes_default(a: str, b: str):
    r = XRegistry()
    ensures(r.current_default() is None and len(r.get_available()) == 0 and a not in r, "an empty registry has no default")
    r.register(a)
    ensures(r.current_default() == a and a in r and len(r.get_available()) == 1, "the first registered instance is the default")
    r.register(b)
    ensures(r.current_default() == a, "later registrations keep the default")
    ensures(a in r and b in r, "registered instances are available")
    ensures(len(r.get_available()) == (1 if a == b else 2), "every instance is available once")
    r.register(a)
    ensures(len(r.get_available()) == (1 if a == b else 2) and r.current_default() == a, "registering again changes nothing")


@lemma("C17")
def default_is_set(a: str, b: str, c: str):
    r = XRegistry()
    r.register(a)
    r.set_current_default(b)
    ensures(r.current_default() == b and b in r and a in r, "setting a default registers it and keeps the others")
    r.register(c)
    ensures(r.current_default() == b and c in r, "the default stays until it is set again")
    r.set_current_default(a)
    ensures(r.current_default() == a and b in r and c in r, "the default can be set again")


@lemma("C17")
def equal_instances(u: uuid.UUID):
    a, b = XID(u), XID(u)
    r = XRegistry()
    r.register(a)
    ensures(r.current_default() is a and b in r, "the first registered instance is the default")
    r.register(b)
    ensures(r.current_default() is a and len(r.get_available()) == 1, "an equal instance is not registered again")
    r.set_current_default(b)
    ensures(r.current_default() is b and len(r.get_available()) == 1, "the default is the instance that was set")


@lemma("C17", mode="bounded", weight=2)
def history(g: Gen):
    r = XRegistry()
    seen, default = [], None
    pool = [XFactory(), XFactory(), "a", "b", 1, XesXmlParser()]
    for _ in range(g.r.choice([1, 3, 6, 10])):
        x = g.r.choice(pool)
        if g.chance(.7):
            r.register(x)
            if default is None:
                default = x
        else:
            r.set_current_default(x)
            default = x
        if not any(x is y for y in seen):
            seen.append(x)
        ensures(r.current_default() is default, "the default is the first registered or the last one set")
        got = r.get_available()
        ensures(len(got) == len(seen) and all(any(x is y for y in seen) for x in got), "exactly the registered instances are available")
        ensures(all((y in r) == any(y is z for z in seen) for y in pool), "membership")


@lemma("C17", mode="bounded")
def shared_instances(g: Gen):
    cs = list(SHARED)
    g.r.shuffle(cs)
    first = {}
    for c in cs * 2:
        o = c()
        ensures(type(o) is c, "a shared class makes instances of itself")
        ensures(o is first.setdefault(c, o), "there is one shared instance")


@lemma("C17", mode="bounded")
def contents(g: Gen):
    def kinds(r):
        return sorted(type(x).__name__ for x in r.get_available())
    ensures(kinds(XParserRegistry()) == ["XMxmlGZIPParser", "XMxmlParser", "XesXmlGZIPParser", "XesXmlParser"], "the known parsers")
    ensures(kinds(XSerializerRegistry()) == ["XMxmlGZIPSerializer", "XMxmlSerializer", "XesXmlGZIPSerializer", "XesXmlSerializer"],
            "the known serializers")
    ensures(isinstance(XParserRegistry().current_default(), XesXmlParser), "the default parser reads XES")
    ensures(isinstance(XSerializerRegistry().current_default(), XesXmlSerializer), "the default serializer writes XES")
    ensures(isinstance(XFactoryRegistry().current_default(), XFactory), "there is a default factory")


@lemma("C17")
def registry_startup():
    r = fresh(XFactoryRegistry)
    ensures(isinstance(r.current_default(), XFactory) and r.current_default() in r and len(r.get_available()) == 1,
            "there is a default factory")
    p = fresh(XParserRegistry)
    ensures(len(p.get_available()) == 4 and isinstance(p.current_default(), XesXmlGZIPParser), "the known parsers and the default")
    s = fresh(XSerializerRegistry)
    ensures(len(s.get_available()) == 4 and isinstance(s.current_default(), XesXmlGZIPSerializer), "the known serializers and the default")


def made(a, cls, k, x):
    ensures(type(a) is cls and a.get_key() == k and a.get_extension() is x and len(a.get_attributes()) == 0,
            "the attribute has the kind, key and extension asked for and no nested attributes")


@lemma("C17")
def factory_texts(k: Key, v: str, x: Opt[XExtension]):
    a = XFactory.create_attribute_literal(k, v, x)
    made(a, XAttributeLiteral, k, x)
    ensures(a.get_value() == v, "the value")


@lemma("C17")
def factory_numbers(k: Key, i: int, f: float, b: bool, x: Opt[XExtension]):
    a = XFactory.create_attribute_discrete(k, i, x)
    made(a, XAttributeDiscrete, k, x)
    ensures(a.get_value() == i, "the value")
    c = XFactory.create_attribute_continuous(k, f, x)
    made(c, XAttributeContinuous, k, x)
    ensures(c.get_value() == f, "the value")
    d = XFactory.create_attribute_boolean(k, b, x)
    made(d, XAttributeBoolean, k, x)
    ensures(d.get_value() == b, "the value")


@lemma("C17")
def factory_others(k: Key, v: Stamp, i: XID, x: Opt[XExtension]):
    a = XFactory.create_attribute_timestamp(k, v, x)
    made(a, XAttributeTimestamp, k, x)
    ensures(a.get_value() == v, "the value")
    c = XFactory.create_attribute_id(k, i, x)
    made(c, XAttributeID, k, x)
    ensures(c.get_value() == i, "the value")
    d = XFactory.create_attribute_list(k, x)
    made(d, XAttributeList, k, x)
    ensures(len(d.get_collection()) == 0, "a new list is empty")
    e = XFactory.create_attribute_container(k, x)
    made(e, XAttributeContainer, k, x)
    ensures(len(e.get_collection()) == 0, "a new container is empty")


@lemma("C17", mode="bounded")
def new_ids(n: Nat):
    ids = [XIDFactory.create_id() for _ in range(min(n, 50) + 2)]
    ensures(len({str(i) for i in ids}) == len(ids), "created IDs are distinct")
    ensures(all(isinstance(i, XID) for i in ids), "created IDs are IDs")


@lemma("C17", mode="shape")
def one_more(m: Map[Key, int], d: Opt[str], a: str, q: str):
    requires(d is None or d in m)
    r = XRegistry()
    r._XRegistry__registry = set(m)
    r._XRegistry__current = d
    n, was, had = len(r.get_available()), q in r, a in r
    requires(d is not None or n == 0)
    r.register(a)
    ensures(a in r and r.current_default() == (a if d is None else d), "registered; the first one is the default")
    ensures((q in r) == (was or q == a) and len(r.get_available()) == (n if had else n + 1), "nothing else comes or goes")
    r.set_current_default(q)
    ensures(r.current_default() == q and q in r and a in r, "the default is set")
    ensures(len(r.get_available()) == (n if had else n + 1) + (0 if was or q == a else 1), "and registered")
