"""C05 — comparison operators, hashing and identity agree and form total orders."""
import uuid
from vspec import *
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeContainer import XAttributeContainer
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttribute import XAttribute
from opyenxes.id.XID import XID
from opyenxes.classification.XEventClass import XEventClass
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier


def operators_agree(a, b, eq, lt):
    """eq and lt say what a == b and a < b must be; every operator has to agree with them."""
    ensures((a == b) == eq, "== is equality of the defining parts")
    ensures((a != b) == (not eq), "!= is the negation of ==")
    ensures((a < b) == lt, "< is the order of the defining parts")
    ensures((a <= b) == (lt or eq), "<= is < or ==")
    ensures((a > b) == (not lt and not eq), "> is the converse of <")
    ensures((a >= b) == (not lt), ">= is the converse of <=")
    c = a.compare_to(b)
    ensures((c == 0) == eq, "compare_to is 0 exactly for equal objects")
    ensures((c < 0) == lt, "compare_to is negative exactly for smaller objects")
    ensures((b.compare_to(a) < 0) == (c > 0), "compare_to is antisymmetric")
    ensures((not eq) or hash(a) == hash(b), "equal objects have equal hashes")
    ensures(a == a and a <= a and a >= a and not (a != a) and not (a < a) and not (a > a), "reflexive")


def transitive(a, b, c):
    ensures((not (a < b and b < c)) or a < c, "< is transitive")
    ensures((not (a <= b and b <= c)) or a <= c, "<= is transitive")
    ensures((not (a == b and b == c)) or a == c, "== is transitive")
    ensures((a == b) == (b == a), "== is symmetric")


@lemma("C05")
def literal(k: Key, v: str, k2: Key, v2: str):
    a, b = XAttributeLiteral(k, v), XAttributeLiteral(k2, v2)
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and v < v2))


@lemma("C05")
def discrete(k: Key, v: int, k2: Key, v2: int):
    a, b = XAttributeDiscrete(k, v), XAttributeDiscrete(k2, v2)
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and v < v2))


@lemma("C05")
def continuous(k: Key, v: float, k2: Key, v2: float):
    a, b = XAttributeContinuous(k, v), XAttributeContinuous(k2, v2)
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and v < v2))


@lemma("C05")
def boolean(k: Key, v: bool, k2: Key, v2: bool):
    a, b = XAttributeBoolean(k, v), XAttributeBoolean(k2, v2)
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and (not v) and v2))


@lemma("C05")
def timestamp(k: Key, v: Stamp, k2: Key, v2: Stamp):
    a, b = XAttributeTimestamp(k, v), XAttributeTimestamp(k2, v2)
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and v < v2))


@lemma("C05")
def identity(k: Key, v: uuid.UUID, k2: Key, v2: uuid.UUID):
    a, b = XAttributeID(k, XID(v)), XAttributeID(k2, XID(v2))
    operators_agree(a, b, k == k2 and v == v2, k < k2 or (k == k2 and v < v2))


@lemma("C05")
def collections(k: Key, k2: Key):
    operators_agree(XAttributeList(k), XAttributeList(k2), k == k2, k < k2)
    operators_agree(XAttributeContainer(k), XAttributeContainer(k2), k == k2, k < k2)


@lemma("C05")
def ids(v: uuid.UUID, v2: uuid.UUID):
    operators_agree(XID(v), XID(v2), v == v2, v < v2)
    ensures(XID(v).get_uuid() == v, "an id holds the uuid it was made from")


@lemma("C05")
def event_classes(i: str, n: int, i2: str, n2: int, size: int):
    a, b = XEventClass(i, n), XEventClass(i2, n2)
    a.set_size(size)
    operators_agree(a, b, i == i2, i < i2)


@lemma("C05")
def events(v: uuid.UUID, v2: uuid.UUID):
    a, b = XEvent(None, XID(v)), XEvent(None, XID(v2))
    ensures((a == b) == (v == v2), "events are equal exactly when their ids are")
    ensures((a != b) == (v != v2), "!= is the negation of ==")
    ensures((not (v == v2)) or hash(a) == hash(b), "equal events have equal hashes")


@lemma("C05")
def classifiers(n: str, ks: List[Key], n2: str, ks2: List[Key]):
    a, b = XEventAttributeClassifier(n, ks), XEventAttributeClassifier(n2, ks2)
    eq = n == n2 and ks == ks2
    ensures((a == b) == eq, "classifiers are equal exactly when name and keys are")
    ensures((a != b) == (not eq), "!= is the negation of ==")
    ensures((not eq) or hash(a) == hash(b), "equal classifiers have equal hashes")
    c = a.compare_to(b)
    d = b.compare_to(a)
    ensures((c == 0) == eq, "compare_to is 0 exactly for equal classifiers")
    ensures((d < 0) == (c > 0) and (d > 0) == (c < 0), "compare_to is antisymmetric")
    ensures((a < b) == (c < 0) and (a <= b) == (c <= 0) and (a > b) == (c > 0) and (a >= b) == (c >= 0),
            "the operators agree with compare_to")


@lemma("C05")
def class_collections(n: str, ks: List[Key], n2: str, ks2: List[Key]):
    a, b = XEventAttributeClassifier(n, ks), XEventAttributeClassifier(n2, ks2)
    x, y = XEventClasses(a), XEventClasses(b)
    ensures((x == y) == (a == b) and (x != y) == (not (x == y)), "collections of classes are equal exactly when their classifiers are")
    ensures(x == x and not (x == None), "equality is reflexive")  # noqa: E711


@lemma("C05")
def classifiers_transitive(n: str, ks: List[Key], n2: str, ks2: List[Key], n3: str, ks3: List[Key]):
    a, b, c = XEventAttributeClassifier(n, ks), XEventAttributeClassifier(n2, ks2), XEventAttributeClassifier(n3, ks3)
    transitive(a, b, c)


@lemma("C05")
def literal_transitive(k: Key, v: str, k2: Key, v2: str, k3: Key, v3: str):
    transitive(XAttributeLiteral(k, v), XAttributeLiteral(k2, v2), XAttributeLiteral(k3, v3))


@lemma("C05")
def discrete_transitive(k: Key, v: int, k2: Key, v2: int, k3: Key, v3: int):
    transitive(XAttributeDiscrete(k, v), XAttributeDiscrete(k2, v2), XAttributeDiscrete(k3, v3))


@lemma("C05")
def continuous_transitive(k: Key, v: float, k2: Key, v2: float, k3: Key, v3: float):
    transitive(XAttributeContinuous(k, v), XAttributeContinuous(k2, v2), XAttributeContinuous(k3, v3))


@lemma("C05")
def boolean_transitive(k: Key, v: bool, k2: Key, v2: bool, k3: Key, v3: bool):
    transitive(XAttributeBoolean(k, v), XAttributeBoolean(k2, v2), XAttributeBoolean(k3, v3))


@lemma("C05")
def timestamp_transitive(k: Key, v: Stamp, k2: Key, v2: Stamp, k3: Key, v3: Stamp):
    transitive(XAttributeTimestamp(k, v), XAttributeTimestamp(k2, v2), XAttributeTimestamp(k3, v3))


@lemma("C05")
def ids_transitive(v: uuid.UUID, v2: uuid.UUID, v3: uuid.UUID):
    transitive(XID(v), XID(v2), XID(v3))


@lemma("C05")
def other_things(a: XAttribute, e: XEvent, i: XID, n: str, c: XEventAttributeClassifier, x: Const(None, 5, "k", 1.5, True, ())):
    """Nothing but an object of its own sort equals an attribute, event, identity, event class or classifier."""
    ensures(not (a == x) and a != x, "an attribute is no plain value")
    ensures(not (e == x) and e != x and not (e == i) and e != i, "an event is no plain value and not its identity")
    ensures(not (i == x) and i != x, "an identity is no plain value")
    k = XEventClass(n, 0)
    ensures(not (k == x) and k != x and not (k == n), "an event class is no plain value and not its identity")
    ensures(not (c == x) and c != x and not (c == c.name()), "a classifier is no plain value and not its name")
    cs = XEventClasses(c)
    ensures(not (cs == x) and cs != x and not (cs == c), "event classes are no plain value and not their classifier")
