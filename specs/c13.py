"""C13 — standard extensions: what is assigned is what is extracted, and nothing else changes."""
import datetime
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributable import XAttributable
from opyenxes.model.XElement import XElement
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.id.XID import XID
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
import uuid


def stored(e, x, q, key, cls, value, s, had, old):
    """e holds value at key as an attribute of the extension x, and is otherwise as it was."""
    m = e.get_attributes()
    a = m.get(key)
    ensures(a is not None and type(a) is cls and a.get_key() == key, "stored as an attribute of the right kind and key")
    ensures(a.get_value() == value and type(a.get_value()) is type(value), "stored as given")
    ensures(a.get_extension() is x, "the attribute belongs to the extension")
    ensures(not a.has_attributes(), "the stored attribute has no attributes of its own")
    ensures(only_changed(s, m), "nothing but the element's attribute map changes")
    ensures(q == key or ((q in m) == had and m.get(q) is old), "no other attribute is added, replaced or removed")


def ignored(e, s, label="values that cannot be stored are ignored"):
    ensures(unchanged(s), label)


def literal(e, x, q, key, value, assign, extract, stripped=False):
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    assign(e, value)
    if value is None or value.strip() == "":
        ignored(e, s)
    else:
        want = value.strip() if stripped else value
        stored(e, x, q, key, XAttributeLiteral, want, s, had, old)
        ensures(extract(e) == want, "what was assigned is extracted")


@lemma("C13")
def concept_name(e: XElement, v: Opt[str], q: Key):
    x = XConceptExtension()
    literal(e, x, q, "concept:name", v, x.assign_name, x.extract_name)


@lemma("C13")
def concept_instance(e: XElement, v: Opt[str], q: Key):
    x = XConceptExtension()
    literal(e, x, q, "concept:instance", v, x.assign_instance, x.extract_instance)


@lemma("C13")
def org_resource(e: XElement, v: Opt[str], q: Key):
    x = XOrganizationalExtension()
    literal(e, x, q, "org:resource", v, x.assign_resource, x.extract_resource)


@lemma("C13")
def org_role(e: XElement, v: Opt[str], q: Key):
    x = XOrganizationalExtension()
    literal(e, x, q, "org:role", v, x.assign_role, x.extract_role)


@lemma("C13")
def org_group(e: XElement, v: Opt[str], q: Key):
    x = XOrganizationalExtension()
    literal(e, x, q, "org:group", v, x.assign_group, x.extract_group)


@lemma("C13")
def lifecycle_model(e: XElement, v: Opt[str], q: Key):
    x = XLifecycleExtension()
    literal(e, x, q, "lifecycle:model", v, x.assign_model, x.extract_model, True)
    if v is not None and v.strip() != "":
        ensures(x.uses_standard_model(e) == (v.strip() == "standard"), "the standard model is recognised")


@lemma("C13")
def lifecycle_transition(e: XElement, v: Opt[str], q: Key):
    x = XLifecycleExtension()
    literal(e, x, q, "lifecycle:transition", v, x.assign_transition, x.extract_transition, True)


STANDARD = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
            "autoskip", "manualskip", "unknown"]


@lemma("C13")
def lifecycle_standard(e: XElement, v: str, q: Key):
    x = XLifecycleExtension()
    norm = v.strip().lower()
    want = norm if norm in STANDARD else "unknown"
    ensures(XLifecycleExtension.StandardModel().decode(v) == want, "standard transitions are recognised in any case")
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_standard_transition(e, v)
    stored(e, x, q, "lifecycle:transition", XAttributeLiteral, want, s, had, old)
    ensures(x.extract_standard_transition(e) == want and x.extract_transition(e) == want, "what was assigned is extracted")


@lemma("C13")
def cost_currency(e: XElement, v: Opt[str], q: Key):
    x = XCostExtension()
    literal(e, x, q, "cost:currency", v, x.assign_currency, x.extract_currency)


@lemma("C13")
def cost_driver(e: XElement, v: Opt[str], q: Key):
    x = XCostExtension()
    literal(e, x, q, "cost:driver", v, x.assign_driver, x.extract_driver)


@lemma("C13")
def cost_type(e: XElement, v: Opt[str], q: Key):
    x = XCostExtension()
    literal(e, x, q, "cost:type", v, x.assign_type, x.extract_type)


def amount(e, x, q, key, v, assign, extract):
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    assign(e, v)
    if v is None or v <= 0:
        ignored(e, s)
    else:
        stored(e, x, q, key, XAttributeContinuous, v, s, had, old)
        ensures(extract(e) == v, "what was assigned is extracted")


@lemma("C13")
def cost_total(e: XElement, v: Opt[float], q: Key):
    x = XCostExtension()
    amount(e, x, q, "cost:total", v, x.assign_total, x.extract_total)


@lemma("C13")
def cost_amount(e: XElement, v: Opt[float], q: Key):
    x = XCostExtension()
    amount(e, x, q, "cost:amount", v, x.assign_amount, x.extract_amount)


@lemma("C13")
def identity(e: XElement, u: uuid.UUID, q: Key):
    x = XIdentityExtension()
    v = XID(u)
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_id(e, None)
    ignored(e, s)
    x.assign_id(e, v)
    stored(e, x, q, "identity:id", XAttributeID, v, s, had, old)
    ensures(x.extract_id(e) == v and x.extract_id(e).get_uuid() == u, "what was assigned is extracted")


@lemma("C13")
def micro_level(e: XElement, v: int, q: Key):
    x = XMicroExtension()
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_level(e, v)
    if v > 0:
        stored(e, x, q, "micro:level", XAttributeDiscrete, v, s, had, old)
        ensures(x.extract_level(e) == v, "what was assigned is extracted")
    else:
        ignored(e, s)


@lemma("C13")
def micro_length(e: XElement, v: int, q: Key):
    x = XMicroExtension()
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_length(e, v)
    if v >= 0:
        stored(e, x, q, "micro:length", XAttributeDiscrete, v, s, had, old)
        ensures(x.extract_length(e) == v, "what was assigned is extracted")
    else:
        ignored(e, s)


@lemma("C13")
def micro_parent(e: XElement, u: uuid.UUID, q: Key):
    x = XMicroExtension()
    v = XID(u)
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_parent_id(e, v)
    stored(e, x, q, "micro:parentId", XAttributeID, v, s, had, old)
    ensures(x.extract_parent_id(e) == v, "what was assigned is extracted")


def removed(e, q, key, act):
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e)
    act(e)
    ensures(only_changed(s, m), "nothing but the element's attribute map changes")
    ensures(key not in m, "the attribute is removed")
    ensures(q == key or ((q in m) == had and m.get(q) is old), "no other attribute is added, replaced or removed")


@lemma("C13")
def micro_remove(e: XElement, q: Key, which: Const("level", "length", "parent", "none")):
    x = XMicroExtension()
    if which == "level":
        removed(e, q, "micro:level", x.remove_level)
        ensures(x.extract_level(e) == -1, "a missing level is -1")
    elif which == "length":
        removed(e, q, "micro:length", x.remove_length)
        ensures(x.extract_length(e) == -1, "a missing length is -1")
    elif which == "parent":
        removed(e, q, "micro:parentId", x.remove_parent_id)
        ensures(x.extract_parent_id(e) is None, "a missing parent is None")
    else:
        removed(e, q, "micro:parentId", lambda e: x.assign_parent_id(e, None))
        ensures(x.extract_parent_id(e) is None, "assigning None removes the parent")


@lemma("C13")
def timestamps(e: XElement, v: Stamp, q: Key):
    x = XTimeExtension()
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_timestamp(e, v)
    stored(e, x, q, "time:timestamp", XAttributeTimestamp, v, s, had, old)
    d = x.extract_timestamp(e)
    ensures(d == v and d.utcoffset() == v.utcoffset(), "what was assigned is extracted")


@lemma("C13")
def absent(e: XElement, j: Nat):
    requires(j < 14)
    c, o, l = XConceptExtension(), XOrganizationalExtension(), XLifecycleExtension()
    k, i = XCostExtension(), XIdentityExtension()
    key, f = [("concept:name", c.extract_name), ("concept:instance", c.extract_instance), ("org:resource", o.extract_resource),
              ("org:role", o.extract_role), ("org:group", o.extract_group), ("lifecycle:model", l.extract_model),
              ("lifecycle:transition", l.extract_transition), ("lifecycle:transition", l.extract_standard_transition),
              ("cost:total", k.extract_total), ("cost:currency", k.extract_currency), ("cost:amount", k.extract_amount),
              ("cost:driver", k.extract_driver), ("cost:type", k.extract_type), ("identity:id", i.extract_id)][j]
    requires(key not in e.get_attributes())
    s = snapshot(e)
    ensures(f(e) is None, "a missing attribute is extracted as None")
    ensures(unchanged(s), "extracting changes nothing")


@lemma("C13")
def absent_model(e: XElement):
    m = e.get_attributes()
    s = snapshot(e)
    if "lifecycle:model" not in m:
        ensures(not XLifecycleExtension().uses_standard_model(e), "no model is not the standard model")
    if "semantic:modelReference" not in m:
        ensures(XSemanticExtension().extract_model_references(e) == [], "no model references")
    ensures(unchanged(s), "extracting changes nothing")


@lemma("C13", mode="bounded", weight=2)
def references(e: XElement, refs: List[str], q: Key):
    refs = [r for r in ("".join(r.split()) for r in refs) if r != ""]
    x = XSemanticExtension()
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_model_references(e, refs)
    if not refs:
        ignored(e, s)
    else:
        a = m["semantic:modelReference"]
        stored(e, x, q, "semantic:modelReference", XAttributeLiteral, a.get_value(), s, had, old)
        ensures(x.extract_model_references(e) == refs, "the references are extracted in order")


@lemma("C13")
def up_to_three_references(e: XElement, a: Word, b: Word, c: Word, n: Const(0, 1, 2, 3), q: Key):
    requires(a.split() == [a] and b.split() == [b] and c.split() == [c])
    refs = [a, b, c][:n]
    x = XSemanticExtension()
    m = e.get_attributes()
    had, old = q in m, m.get(q)
    s = snapshot(e, x)
    x.assign_model_references(e, refs)
    if n == 0:
        ignored(e, s)
    else:
        stored(e, x, q, "semantic:modelReference", XAttributeLiteral, m["semantic:modelReference"].get_value(), s, had, old)
        ensures(x.extract_model_references(e) == refs, "the references are extracted in order")


@lemma("C13", mode="bounded")
def reference_uris(e: XElement, refs: List[Const("http://a.b/c", "http://A.b/C#d", "x", "urn:y:z", "http://a.b/c?q=1")]):
    from urllib.parse import urlparse
    x = XSemanticExtension()
    requires(len(refs) > 0)
    x.assign_model_reference_uris(e, [urlparse(r) for r in refs])
    ensures(x.extract_model_reference_uris(e) == [urlparse(r) for r in refs], "the reference uris are extracted in order")
    ensures(x.extract_model_references(e) == refs, "and as text")


@lemma("C13")
def extended_view(e: XEvent, v: str, w: Stamp, j: Nat, q: Key):
    requires(v.strip() != "" and j < 8)
    m = e.get_attributes()
    x = XExtendedEvent.wrap(e)
    c, o, l = XConceptExtension(), XOrganizationalExtension(), XLifecycleExtension()
    n, t = v.strip(), v.strip().lower()
    key, put, get, extract, given, want = [
        ("concept:name", x.set_name, x.get_name, c.extract_name, v, v),
        ("concept:instance", x.set_instance, x.get_instance, c.extract_instance, v, v),
        ("time:timestamp", x.set_time_stamp, x.get_time_stamp, XTimeExtension().extract_timestamp, w, w),
        ("org:resource", x.set_resource, x.get_resourse, o.extract_resource, v, n),
        ("org:role", x.set_role, x.get_role, o.extract_role, v, n),
        ("org:group", x.set_group, x.get_group, o.extract_group, v, n),
        ("lifecycle:transition", x.set_transition, x.get_transition, l.extract_transition, v, n),
        ("lifecycle:transition", x.set_standard_transition, x.get_standard_transition, l.extract_standard_transition, v,
         t if t in STANDARD else "unknown")][j]
    ensures(x.get_attributes() is m and x.has_attributes() == e.has_attributes(), "the view shows the event's own attributes")
    had, old = q in m, m.get(q)
    s = snapshot(e)
    put(given)
    ensures(get() == want and extract(e) == want, "what is set through the view is in the event")
    ensures(e.get_attributes() is m and x.get_attributes() is m, "the view still shows the event's own attributes")
    ensures(only_changed(s, m) and (q == key or ((q in m) == had and m.get(q) is old)), "nothing else is changed")


@lemma("C13")
def up_to_three_references_of_a_view(e: XEvent, a: Word, b: Word, c: Word, n: Const(1, 2, 3)):
    requires(a.split() == [a] and b.split() == [b] and c.split() == [c])
    refs = [a, b, c][:n]
    x = XExtendedEvent(e)
    x.set_model_references(refs)
    ensures(x.get_model_references() == refs, "model references")


@lemma("C13", mode="bounded")
def extended_references(e: XEvent, refs: List[str]):
    refs = [r for r in ("".join(r.split()) for r in refs) if r != ""]
    requires(len(refs) > 0)
    x = XExtendedEvent(e)
    ensures(x.get_extensions() == e.get_extensions(), "a view shows the event's extensions")
    x.set_model_references(refs)
    ensures(x.get_model_references() == refs, "model references")
    c = x.clone()
    ensures(c.get_id() != x.get_id() and c != x and x == x, "a cloned view is a view of its own")
    ensures(c.get_attributes() is not x.get_attributes() and same_map(x.get_attributes(), c.get_attributes()),
            "a cloned view shows a cloned event")


@lemma("C13", mode="bounded")
def extended_reference_uris(e: XEvent, refs: List[Const("http://a.b/c", "http://A.b/C#d", "x", "urn:y:z", "http://a.b/c?q=1")]):
    from urllib.parse import urlparse
    requires(len(refs) > 0)
    x = XExtendedEvent(e)
    x.set_model_references_uris([urlparse(r) for r in refs])
    ensures(x.get_model_references_uris() == [urlparse(r) for r in refs], "reference uris")
    ensures(XSemanticExtension().extract_model_reference_uris(e) == [urlparse(r) for r in refs], "they are in the event")


@lemma("C13")
def extended_attributes(e: XEvent, k: Key, v: str):
    x = XExtendedEvent(e)
    m = XAttributeMap()
    m[k] = XAttributeLiteral(k, v)
    x.set_attributes(m)
    ensures(x.get_attributes() is m and e.get_attributes() is m and x.has_attributes(), "attributes set through the view are the event's")


NAME = ("concept:name", XAttributeLiteral)
TOTAL = ("cost:total", XAttributeContinuous)
CURRENCY = ("cost:currency", XAttributeLiteral)
ID = ("identity:id", XAttributeID)
REFERENCE = ("semantic:modelReference", XAttributeLiteral)
LEVELS = [
    (XConceptExtension, [NAME], [NAME], [NAME, ("concept:instance", XAttributeLiteral)], []),
    (XCostExtension, [], [TOTAL, CURRENCY],
     [TOTAL, CURRENCY, ("cost:amount", XAttributeContinuous), ("cost:driver", XAttributeLiteral), ("cost:type", XAttributeLiteral)], []),
    (XIdentityExtension, [ID], [ID], [ID], [ID]),
    (XLifecycleExtension, [("lifecycle:model", XAttributeLiteral)], [], [("lifecycle:transition", XAttributeLiteral)], []),
    (XMicroExtension, [], [],
     [("micro:level", XAttributeDiscrete), ("micro:parentId", XAttributeID), ("micro:length", XAttributeDiscrete)], []),
    (XOrganizationalExtension, [], [],
     [("org:resource", XAttributeLiteral), ("org:role", XAttributeLiteral), ("org:group", XAttributeLiteral)], []),
    (XSemanticExtension, [REFERENCE], [REFERENCE], [REFERENCE], [REFERENCE]),
    (XTimeExtension, [], [], [("time:timestamp", XAttributeTimestamp)], []),
]


def declares(x, attributes, wanted):
    found = list(attributes)
    ensures(len(found) == len(wanted), "an extension declares its attributes and no others on a level")
    for key, cls in wanted:
        same = [a for a in found if a.get_key() == key]
        ensures(len(same) == 1 and type(same[0]) is cls and same[0].get_extension() is x, "with their key, kind and extension")


@lemma("C13")
def declared():
    """The standard extensions declare what they assign, on the levels it belongs to."""
    for cls, log, trace, event, meta in LEVELS:
        x = cls()
        declares(x, x.get_log_attributes(), log)
        declares(x, x.get_trace_attributes(), trace)
        declares(x, x.get_event_attributes(), event)
        declares(x, x.get_meta_attributes(), meta)


@lemma("C13")
def view_of_an_event(e: XEvent, k: Key, v: str):
    x = XExtendedEvent(e)
    ensures(x.has_attributes() == e.has_attributes(), "a view shows the event's attributes")
    ensures(x == x and hash(x) == hash(x) and not (x == k), "a view equals itself and nothing of another sort")
    m = XAttributeMap()
    m[k] = XAttributeLiteral(k, v)
    x.set_attributes(m)
    ensures(e.get_attributes() is m and x.get_attributes() is m and x.has_attributes(), "and replaces the event's attributes")
