"""The contract of io.StringIO and io.BytesIO: a growing text.  Trusted."""


class _Buffer:
    def __init__(self, initial=None):
        self._parts = []
        self._at = 0
        if initial is not None:
            self._parts.append(initial)

    def read(self, size=-1):
        if self._at != 0 or size != -1:
            raise NotImplementedError("reading in pieces")
        self._at = 1
        return self.getvalue()

    def close(self):
        self._parts = None

    def flush(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StringIO(_Buffer):
    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected")
        self._parts.append(s)
        return len(s)

    def getvalue(self):
        return "".join(self._parts)


class BytesIO(_Buffer):
    def write(self, s):
        if not isinstance(s, bytes):
            raise TypeError("a bytes-like object is required")
        self._parts.append(s)
        return len(s)

    def getvalue(self):
        return b"".join(self._parts)
