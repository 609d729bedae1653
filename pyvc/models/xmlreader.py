"""The contract of the attributes a SAX reader passes to a handler.  Trusted."""


class AttributesImpl:
    def __init__(self, attrs):
        self._attrs = attrs

    def getValue(self, name):
        return self._attrs[name]

    def getNames(self):
        return list(self._attrs.keys())

    def get(self, name, alternative=None):
        return self._attrs.get(name, alternative)

    def keys(self):
        return list(self._attrs.keys())

    def values(self):
        return list(self._attrs.values())

    def items(self):
        return list(self._attrs.items())

    def __len__(self):
        return len(self._attrs)

    def __getitem__(self, name):
        return self._attrs[name]

    def __contains__(self, name):
        return name in self._attrs
