"""The contract of xml.etree.ElementTree, as far as the library uses it: a tree of elements.

Trusted; the bounded lemmas run against the real module.  Writing the tree as text is not modelled here."""


class Element:
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = {}
        if attrib is not None:
            for k in attrib:
                self.attrib[k] = attrib[k]
        for k in extra:
            self.attrib[k] = extra[k]
        self.text = None
        self.tail = None
        self._children = []
        self._pretty = False

    def set(self, key, value):
        self.attrib[key] = value

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def append(self, element):
        self._children.append(element)

    def extend(self, elements):
        for e in elements:
            self._children.append(e)

    def insert(self, i, element):
        self._children.insert(i, element)

    def __len__(self):
        return len(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def __iter__(self):
        return iter(self._children)


class Nested:
    """The elements that were written, by contract, for the attributes nested in an attribute."""


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


from pyvc.hooks import xml_text


def indent(tree, space="  ", level=0):
    """Adds white space between elements only (reported by the reader, see sax)."""
    tree._pretty = True


def tostring(element, encoding=None, method=None):
    text = xml_text(element)
    if encoding == "unicode":
        return text
    return text.encode()
