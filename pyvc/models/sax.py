"""The contract of xml.sax: a document is reported to the handler element by element.

Trusted: reading the text that ElementTree wrote for a tree reports this tree.  The bounded lemmas run the real reader."""
from pyvc.models.xmlreader import AttributesImpl
from xml.etree.ElementTree import Nested
from pyvc.hooks import xml_document, read_nested, hears


class ContentHandler:
    def __init__(self):
        self._locator = None

    def setDocumentLocator(self, locator):
        self._locator = locator

    def startDocument(self):
        return None

    def endDocument(self):
        return None

    def startElement(self, name, attrs):
        return None

    def endElement(self, name):
        return None

    def characters(self, content):
        return None

    def ignorableWhitespace(self, whitespace):
        return None


def parse(source, handler, error_handler=None):
    report(xml_document(source.read()), handler)


def parseString(string, handler, error_handler=None):
    report(xml_document(string), handler)


def report(root, handler):
    handler.startDocument()
    if hears(handler):
        replay_texts(root, handler, root._pretty)
    else:
        replay(root, handler)
    handler.endDocument()


def replay(e, handler):
    """For a handler that does not look at texts."""
    handler.startElement(e.tag, AttributesImpl(e.attrib))
    for c in e._children:
        if isinstance(c, Nested):
            read_nested(c, handler, e.tag.lower())
            continue
        replay(c, handler)
    handler.endElement(e.tag)


def replay_texts(e, handler, pretty):
    handler.startElement(e.tag, AttributesImpl(e.attrib))
    if e.text:
        if pretty and len(e._children) > 0:
            raise NotImplementedError("mixed content")
        handler.characters(e.text)
    elif pretty and len(e._children) > 0:
        handler.characters("\n\t")
    for c in e._children:
        if isinstance(c, Nested):
            raise NotImplementedError("attributes that were written by contract")
        replay_texts(c, handler, pretty)
        if c.tail:
            handler.characters(c.tail)
        if pretty:
            handler.characters("\n\t")
    handler.endElement(e.tag)
