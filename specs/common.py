"""Definitions shared by the specifications: what it means for two model objects to carry the same content."""
import io
import os
import shutil
import tempfile
from opyenxes.model.XAttribute import XAttribute
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeContainer import XAttributeContainer
from opyenxes.model.XAttributeCollection import XAttributeCollection

KINDS = (XAttributeLiteral, XAttributeDiscrete, XAttributeContinuous, XAttributeBoolean, XAttributeTimestamp, XAttributeID,
         XAttributeList, XAttributeContainer)


def kind(a):
    for k in KINDS:
        if type(a) is k:
            return k
    return None


def same_value(a, b):
    if isinstance(a, XAttributeTimestamp):
        v, w = a.get_value(), b.get_value()
        return v == w and v.utcoffset() == w.utcoffset()
    if isinstance(a, XAttributeCollection):
        return same_attrs(a.get_collection(), b.get_collection())
    v, w = a.get_value(), b.get_value()
    return type(v) is type(w) and v == w and str(v) == str(w)


def same_attr(a, b):
    """Same kind, key, value and (for scalars) the same nested attributes in the same order."""
    if kind(a) is None or type(a) is not type(b) or a.get_key() != b.get_key() or not same_value(a, b):
        return False
    if isinstance(a, XAttributeCollection):
        return True
    return same_map(a.get_attributes(), b.get_attributes())


def same_attrs(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(same_attr(x, y) for x, y in zip(xs, ys))


def same_map(m, n):
    return list(m.keys()) == list(n.keys()) and same_attrs(m.values(), n.values()) \
        and all(k == a.get_key() for k, a in n.items())


def same_event(a, b):
    return same_map(a.get_attributes(), b.get_attributes())


def same_trace(a, b):
    return same_map(a.get_attributes(), b.get_attributes()) and len(a) == len(b) and all(same_event(x, y) for x, y in zip(a, b))


def same_content(a, b):
    """Same log attributes, traces and events, in the same order."""
    return same_map(a.get_attributes(), b.get_attributes()) and len(a) == len(b) and all(same_trace(x, y) for x, y in zip(a, b))


def same_header(a, b):
    return same_attrs(a.get_global_trace_attributes(), b.get_global_trace_attributes()) \
        and same_attrs(a.get_global_event_attributes(), b.get_global_event_attributes()) \
        and [(c.name(), list(c.get_defining_attribute_keys())) for c in a.get_classifiers()] \
        == [(c.name(), list(c.get_defining_attribute_keys())) for c in b.get_classifiers()] \
        and {e.get_uri().geturl() for e in a.get_extensions()} == {e.get_uri().geturl() for e in b.get_extensions()} \
        and all(any(e is f for f in a.get_extensions()) for e in b.get_extensions())


def xes_text(log):
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    out = io.StringIO()
    XesXmlSerializer().serialize(log, out)
    return out.getvalue()


def parse_xes(text):
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    return XesXmlParser().parse(io.BytesIO(text.encode("utf-8")))[0]


def mxml_text(log):
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    out = io.StringIO()
    XMxmlSerializer().serialize(log, out)
    return out.getvalue()


def parse_mxml(text):
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    return XMxmlParser().parse(io.BytesIO(text.encode("utf-8")))


class Scratch:
    """A scratch directory, removed on exit."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="opyenxes-verif-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def sid(event):
    return str(event.get_id())


def copied(a, c):
    """c is a copy of the attribute a, nested attributes and members included."""
    if type(a) is not type(c) or a is c or a.get_key() != c.get_key() or a.get_extension() is not c.get_extension():
        return False
    if isinstance(a, XAttributeCollection):
        xs, ys = a.get_collection(), c.get_collection()
        if len(xs) != len(ys) or not all(copied(x, y) for x, y in zip(xs, ys)):
            return False
    elif not same_value(a, c):
        return False
    return copied_map(a.get_attributes(), c.get_attributes())


def copied_map(m, n):
    return m is not n and type(m) is type(n) and list(m.keys()) == list(n.keys()) and all(copied(m[k], n[k]) for k in m.keys())
