"""C16 — attribute names are mapped with a fallback to the standard mapping and then to the key itself."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.info.XAttributeNameMap import XAttributeNameMap
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension


@lemma("C16")
def name_map(n: str, k: Key, v: str, k2: Key, v2: str, q: Key, a: XAttributeLiteral):
    m = XAttributeNameMap(n)
    ensures(m.get_mapping_name() == n, "the name of the mapping")
    ensures(m.map(q) is None and m.map(a) is None, "an empty mapping maps nothing")
    m.register_mapping(k, v)
    m.register_mapping(k2, v2)
    want = v2 if q == k2 else v if q == k else None
    ensures(m.map(q) == want, "the alias registered last for the key")
    s = a.get_key()
    ensures(m.map(a) == (v2 if s == k2 else v if s == k else None), "an attribute is mapped by its key")
    m.register_mapping(a, v)
    ensures(m.map(s) == v and m.map(a) == v, "an attribute registers its key")
    ensures(q == s or m.map(q) == want, "other keys keep their alias")


@lemma("C16")
def fallback(mine: str, k: Key, v: str, k2: Key, v2: str, q: Key, other: str, a: XAttributeLiteral):
    requires(mine != "EN" and other != "EN" and other != mine)
    g = fresh(XGlobalAttributeNameMap)
    g.register_mapping("EN", k, v)
    g.register_mapping(mine, k2, v2)
    std = v if q == k else None
    safe = q if std is None else std
    ensures(g.map(q) == std, "the standard mapping")
    ensures(g.map_safely(q, mine) == (v2 if q == k2 else safe), "own alias, else the standard alias, else the key")
    ensures(g.map_safely(q, g.get_mapping(mine)) == (v2 if q == k2 else safe), "the same by mapping object")
    ensures(g.map_safely(q, "EN") == safe and g.map_safely(q, g.get_standard_mapping()) == safe, "the standard alias, else the key")
    ensures(g.map_safely(q, other) == safe, "an unknown mapping falls back to the standard one")
    s = a.get_key()
    want = v2 if s == k2 else v if s == k else s
    ensures(g.map_safely(a, mine) == want and g.map_safely(a, g.get_mapping(mine)) == want, "an attribute is mapped by its key")
    names = g.get_available_mapping_names()
    ensures("EN" in names and mine in names and other not in names, "looking up an unknown mapping does not create it")


@lemma("C16")
def mappings(mine: str):
    g = fresh(XGlobalAttributeNameMap)
    m = g.get_mapping(mine)
    ensures(m.get_mapping_name() == mine and g.get_mapping(mine) is m, "a mapping is created once and found by its name")
    ensures(g.get_mapping("EN") is g.get_standard_mapping() and g.get_mapping_name() == "EN", "the standard mapping is EN")
    ensures(len(g.get_available_mapping_names()) == (1 if mine == "EN" else 2), "one mapping per name")


@lemma("C16", mode="bounded", weight=2)
def history(g: Gen):
    m = fresh(XGlobalAttributeNameMap)
    model = {"EN": {}}
    names = ["EN", "DE", "FR", g.string()]
    keys = ["a", "b", "concept:name", g.key()]
    for _ in range(g.r.choice([1, 3, 8])):
        n, k, v = g.r.choice(names), g.r.choice(keys), g.string()
        if g.chance(.3):
            m.register_mapping(n, XAttributeLiteral(k, "x"), v)
        else:
            m.register_mapping(n, k, v)
        model.setdefault(n, {})[k] = v
    for n in names + ["nosuch"]:
        for k in keys + ["zz"]:
            want = model.get(n, {}).get(k, model["EN"].get(k, k))
            ensures(m.map_safely(k, n) == want and m.map_safely(XAttributeLiteral(k, "x"), n) == want, "own, standard, key")
        if n in model:
            ensures(all(m.get_mapping(n).map(k) == model[n].get(k) for k in keys), "every mapping holds what was registered in it")
    ensures(set(m.get_available_mapping_names()) == set(model), "the mappings registered in, and EN")
    ensures({x.get_mapping_name() for x in m.get_available_mappings()} == set(model), "as objects")


def holding(n, d):
    m = XAttributeNameMap(n)
    m._XAttributeNameMap__mapping = d
    return m


@lemma("C16", mode="shape")
def one_more(n: str, d: Map[Key, str], k: Key, v: str, q: Key, a: XAttribute):
    m = holding(n, d)
    was = m.map(q)
    ensures(was == d.get(q), "lookup in the mapping")
    m.register_mapping(k, v)
    ensures(m.map(k) == v and (q == k or m.map(q) == was), "one alias is set, every other key keeps its own")
    was = m.map(q)
    m.register_mapping(a, v)
    ensures(m.map(a) == v and (q == a.get_key() or m.map(q) == was), "the same for an attribute and its key")
    ensures(m.get_mapping_name() == n, "the name of the mapping")


@lemma("C16", mode="shape")
def any_fallback(std: Map[Key, str], own: Map[Key, str], mine: str, other: str, q: Key, a: XAttribute, k: Key, v: str):
    requires(mine != "EN" and other != "EN" and other != mine)
    g = fresh(XGlobalAttributeNameMap)
    s, m = holding("EN", std), holding(mine, own)
    g._XGlobalAttributeNameMap__standard_mapping = s
    g._XGlobalAttributeNameMap__mappings = {"EN": s, mine: m}
    safe = std.get(q, q)
    want = own.get(q, safe)
    ensures(g.map(q) == std.get(q), "the standard mapping")
    ensures(g.map_safely(q, mine) == want and g.map_safely(q, m) == want, "own alias, else the standard alias, else the key")
    ensures(g.map_safely(q, other) == safe and g.map_safely(q, "EN") == safe and g.map_safely(q, s) == safe, "the standard alias, else the key")
    ensures(g.map_safely(a, mine) == g.map_safely(a.get_key(), mine) and g.map_safely(a, m) == g.map_safely(a.get_key(), m)
            and g.map(a) == g.map(a.get_key()), "an attribute is mapped by its key")
    g.register_mapping(mine, k, v)
    ensures(g.map_safely(k, mine) == v and g.map(q) == std.get(q), "an alias reaches its mapping only")
    ensures(q == k or g.map_safely(q, mine) == want, "and its key only")
    g.register_mapping(other, k, v)
    ensures(g.map_safely(q, other) == (v if q == k else safe), "an alias in a new mapping")
    ensures(g.get_mapping(other).map(q) == (v if q == k else None), "which holds nothing else")


@lemma("C16")
def standard_attributes(other: str):
    """Every attribute the standard extensions declare has a name in the standard mapping, so also in any other."""
    g = XGlobalAttributeNameMap()
    for cls in (XConceptExtension, XCostExtension, XIdentityExtension, XLifecycleExtension, XMicroExtension, XOrganizationalExtension,
                XSemanticExtension, XTimeExtension):
        x = cls()
        for a in list(x.get_log_attributes()) + list(x.get_trace_attributes()) + list(x.get_event_attributes()) + list(x.get_meta_attributes()):
            name = g.get_standard_mapping().map(a)
            ensures(name is not None and name != a.get_key() and g.get_standard_mapping().map(a.get_key()) == name, "it has a standard name")
            ensures(g.map_safely(a, other) != a.get_key(), "and so a name in any mapping")
            for n in ("DE", "FR", "ES", "PT"):
                own = g.get_mapping(n).map(a)
                ensures(g.map_safely(a, n) == (name if own is None else own), "its name in a mapping, otherwise the standard name")
