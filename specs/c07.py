"""C07 — an event's class is determined by the classifier's attributes, in order; AND classifiers combine keys."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XEvent import XEvent
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier


def text_at(e, k):
    a = e.get_attributes().get(k)
    return "" if a is None else str(a)


@lemma("C07")
def one_key(n: str, k: Key, e: XEvent):
    c = XEventAttributeClassifier(n, [k])
    ensures(c.get_class_identity(e) == text_at(e, k), "the class is the text of the attribute, empty when missing")


@lemma("C07")
def two_keys(n: str, k: Key, k2: Key, e: XEvent):
    c = XEventAttributeClassifier(n, [k, k2])
    ensures(c.get_class_identity(e) == text_at(e, k) + "&&" + text_at(e, k2), "both texts in order, missing ones empty")


@lemma("C07")
def three_keys(n: str, k: Key, k2: Key, k3: Key, e: XEvent):
    c = XEventAttributeClassifier(n, [k, k2, k3])
    ensures(c.get_class_identity(e) == text_at(e, k) + "&&" + text_at(e, k2) + "&&" + text_at(e, k3),
            "all three texts in order, missing ones keep their place")


@lemma("C07", weight=2)
def identity(c: XEventAttributeClassifier, e: XEvent):
    s = snapshot(c, e)
    want = "&&".join(text_at(e, k) for k in c.get_defining_attribute_keys())
    ensures(c.get_class_identity(e) == want, "the texts of the defining attributes in order, missing ones empty")
    ensures(unchanged(s), "classifying changes nothing")


@lemma("C07")
def same_class(n: str, ks: List[Key], e: XEvent, f: XEvent):
    c = XEventAttributeClassifier(n, ks)
    ensures(c.same_event_class(e, f) == (c.get_class_identity(e) == c.get_class_identity(f)),
            "events are of the same class exactly when their identities are equal")
    ensures(c.same_event_class(e, e), "an event is of its own class")


@lemma("C07")
def same_values(n: str, k: Key, k2: Key, e: XEvent, f: XEvent):
    requires(text_at(e, k) == text_at(f, k) and text_at(e, k2) == text_at(f, k2))
    ensures(XEventAttributeClassifier(n, [k, k2]).same_event_class(e, f), "events with the same defining values are of the same class")
    ensures(XEventAttributeClassifier(n, [k]).same_event_class(e, f), "events with the same defining value are of the same class")


@lemma("C07")
def standard(e: XEvent):
    ensures(XEventNameClassifier().get_class_identity(e) == text_at(e, "concept:name"), "name classifier")
    ensures(XEventResourceClassifier().get_class_identity(e) == text_at(e, "org:resource"), "resource classifier")
    ensures(XEventLifeTransClassifier().get_class_identity(e) == text_at(e, "lifecycle:transition"), "transition classifier")


@lemma("C07")
def holds_what_it_was_given(n: str, m: str, ks: List[Key]):
    c = XEventAttributeClassifier(n, ks)
    ensures(c.name() == n and str(c) == n and c.get_defining_attribute_keys() == ks, "name and keys")
    c.set_name(m)
    ensures(c.name() == m and c.get_defining_attribute_keys() == ks, "renaming changes the name only")


@lemma("C07")
def conjunction_of_two(n: str, k: Key, k2: Key, m: str, k3: Key, e: XEvent):
    ks, ks2 = [k, k2], [k3]
    a, b = XEventAttributeClassifier(n, ks), XEventAttributeClassifier(m, ks2)
    s = snapshot(a, b, ks, ks2)
    c = XEventAndClassifier([a, b])
    got = list(c.get_defining_attribute_keys())
    ensures(k in got and k2 in got and k3 in got, "every key of an operand is used")
    ensures(forall(got, lambda x: x == k or x == k2 or x == k3), "only keys of the operands are used")
    ensures(forall(range(1, len(got)), lambda i: got[i - 1] < got[i]), "each key once, in sorted order")
    ensures(c.name() == "(" + n + " AND " + m + ")", "the names of both operands")
    ensures(unchanged(s), "the operands are not changed")
    ensures(XEventAndClassifier([b, a]).get_class_identity(e) == c.get_class_identity(e), "the order of the operands does not matter")


@lemma("C07", mode="bounded", weight=2)
def conjunction(cs: List[XEventAttributeClassifier], e: XEvent):
    requires(len(cs) > 0)
    s = snapshot(*cs)
    c = XEventAndClassifier(cs)
    want = sorted({k for d in cs for k in d.get_defining_attribute_keys()})
    ensures(list(c.get_defining_attribute_keys()) == want, "the keys of all operands, each once, sorted")
    ensures(c.name() == "(" + " AND ".join(d.name() for d in cs) + ")", "the names of all operands")
    ensures(c.get_class_identity(e) == "&&".join(text_at(e, k) for k in want), "identity over the combined keys")
    ensures(unchanged(s), "the operands are not changed")


@lemma("C07", mode="bounded")
def conjunction_refines(g: Gen):
    e, f = g.event(), g.event()
    if g.chance(.7):
        for k in list(e.get_attributes()):
            if g.chance(.7):
                f.get_attributes()[k] = e.get_attributes()[k]
    cs = [g.classifier() for _ in range(g.r.choice([1, 2, 3]))]
    c = XEventAndClassifier(cs)
    same = all(text_at(e, k) == text_at(f, k) for d in cs for k in d.get_defining_attribute_keys())
    ensures((not same) or c.same_event_class(e, f), "events that agree on every defining attribute are of the same class")


@lemma("C07")
def two_events_agree(n: str, k: Key, k2: Key, m: str, k3: Key, e: XEvent, f: XEvent):
    c = XEventAndClassifier([XEventAttributeClassifier(n, [k, k2]), XEventAttributeClassifier(m, [k3])])
    requires(text_at(e, k) == text_at(f, k) and text_at(e, k2) == text_at(f, k2) and text_at(e, k3) == text_at(f, k3))
    ensures(c.same_event_class(e, f), "events that agree on every defining attribute are of the same class")


@lemma("C07")
def conjunction_of_three(n: str, k: Key, m: str, k2: Key, o: str, k3: Key, e: XEvent):
    c = XEventAndClassifier([XEventAttributeClassifier(n, [k]), XEventAttributeClassifier(m, [k2]), XEventAttributeClassifier(o, [k3])])
    got = list(c.get_defining_attribute_keys())
    ensures(k in got and k2 in got and k3 in got, "every key of an operand is used")
    ensures(forall(got, lambda x: x == k or x == k2 or x == k3), "only keys of the operands are used")
    ensures(forall(range(1, len(got)), lambda i: got[i - 1] < got[i]), "each key once, in sorted order")
    ensures(c.name() == "(" + n + " AND " + m + " AND " + o + ")", "the names of the operands")


@lemma("C07")
def empty_conjunction(n: str):
    ensures(raised(lambda: XEventAndClassifier([]), ValueError), "at least one operand is needed")
