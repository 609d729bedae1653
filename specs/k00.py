"""Contracts of virtual methods (see pyvc/sidecar.py), proved on the bodies of every kind of attribute."""
from vspec import *
from specs.common import *
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeContainer import XAttributeContainer
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.extension.XExtensionManager import XExtensionManager

ANY = OneOf[XAttributeLiteral, XAttributeDiscrete, XAttributeContinuous, XAttributeBoolean, XAttributeTimestamp, XAttributeID,
            XAttributeList, XAttributeContainer]


@lemma("K00")
def attribute_text(a: ANY):
    s = snapshot(a)
    t = str(a)
    ensures(isinstance(t, str), "the text of an attribute is a string")
    ensures(unchanged(s), "taking the text changes nothing")
    ensures(str(a) == t, "the text depends on the attribute only")


@lemma("K00")
def attribute_clone(a: ANY):
    s = snapshot(a)
    c = a.clone()
    ensures(unchanged(s), "cloning changes nothing")
    ensures(copied(a, c), "the clone has the kind, key, value, extension, nested attributes and members of the original")
    ensures(disjoint(a, c), "the clone shares nothing that can change")


@lemma("K00")
def map_clone(m: XAttributeMap):
    s = snapshot(m)
    c = m.clone()
    ensures(unchanged(s), "cloning changes nothing")
    ensures(copied_map(m, c), "the clone maps the same keys, in order, to clones")
    ensures(disjoint(m, c), "the clone shares nothing that can change")


@lemma("K00")
def prefix_lookup(p: str):
    s = snapshot(XExtensionManager())
    e = XExtensionManager().get_by_prefix(p)
    ensures(unchanged(s), "looking up an extension changes nothing")
    ensures(e is None or e.get_prefix() == p, "the extension found has the prefix")
    ensures(XExtensionManager().get_by_prefix(p) is e, "the extension found depends on the prefix only")
