"""Input generators for the concrete evaluation of lemmas (bounded cross-check, replay search)."""
import ast
import datetime as _dt
import os
import random
import uuid

import vspec

KEYS = ["concept:name", "concept:instance", "time:timestamp", "lifecycle:transition", "lifecycle:model", "org:resource",
        "org:role", "org:group", "cost:total", "cost:currency", "cost:amount", "cost:driver", "cost:type", "micro:level",
        "micro:parentId", "micro:length", "identity:id", "semantic:modelReference", "k", "key", "a:b", "x:y:z", ":k", "k:", "cost:a:b", "concept::x", "a:cost:b",
        "UNKNOWN", "source", "description"]
STRS = ["", " ", "a", "b", "c", "A", "B", "ab", "aB", "AB", "ba", "a b", " a", "a ", "a  b", "'", "a'b", "&", "&&", "a&&b", "a&b", "<", ">",
        '"', "a\"b'c", "\n", "\t", "\r", "a\nb", "a\tb", "\r\n", "é", "É", "ß", "漢字", "\U0001F600", "Z", "+", "-", ":", ".", "0", "1",
        "01", "-1", "1.0", "1.5", "true", "false", "True", "None", "none", "null", "nan", "UNKNOWN", "DEFAULT", "complete", "start",
        "COMPLETE", " Complete ", "unknown", "standard", "schedule", "manualskip", "]]>", "<!--", "&amp;", "%s", "{}", "\\", "\\s",
        "a,b", "[", "]", "http://www.xes-standard.org/concept.xesext", "\u00a0", "\u2028", "\u0085", "x" * 40, "x" * 300]
INTS = [0, 1, -1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 50, 59, 60, 61, 63, 64, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001,
        65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 18,
        10 ** 18 + 1, 10 ** 30]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 0.2, 0.30000000000000004, 1e-300, 5e-324, 1e16, 1e22, 1.7976931348623157e308, -2.5, 3.14159,
          123456789.123456789, 100.0, 0.01, 1e100, 1e-7, 12345678.9, float(2 ** 53)]


def harvest(root):
    """String and integer literals of the source under test (and their neighbours)."""
    ss, ii = set(), set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f), encoding="utf-8-sig") as fh:
                        t = ast.parse(fh.read())
                except SyntaxError:
                    continue
                docs = set()
                for n in ast.walk(t):
                    if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body \
                            and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                        docs.add(id(n.body[0].value))
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        if isinstance(n.value, str) and len(n.value) <= 30:
                            ss.add(n.value)
                        elif type(n.value) is int:
                            ii.update((n.value - 1, n.value, n.value + 1))
    return sorted(ss), sorted(ii)


def xml_ok(s):
    return all(c in "\t\n\r" or 0x20 <= ord(c) <= 0xD7FF or 0xE000 <= ord(c) <= 0xFFFD or ord(c) >= 0x10000 for c in s)


class Gen:
    def __init__(self, seed, lits=((), ()), size=1.0):
        self.r = random.Random(seed)
        self.lits = lits
        self.scale = size
        self.ints, self.reals = [], []
        self.big = False        # at most one long list, long text or deep attribute in a case
        self.pool = []          # strings already used in this case: collisions matter

    # ---- scalars
    def chance(self, p):
        return self.r.random() < p

    def string(self):
        r = self.r
        x = r.random()
        if x < 0.25 and self.pool:
            s = r.choice(self.pool)
            if r.random() < 0.25 and s:
                s = r.choice([s.upper(), s.lower(), s + " ", " " + s, s[:-1], s + s[:1], s.swapcase()])
        elif x < 0.55:
            s = r.choice(STRS)
        elif x < 0.70 and self.lits[0]:
            s = r.choice(self.lits[0])
        elif x < 0.80:
            s = r.choice(KEYS)
        else:
            s = "".join(r.choice("abcxyzABZ019 _-:&'\"<>.,/é\n\t") for _ in range(r.choice([1, 2, 3, 5, 8, 20])))
        if not self.big and r.random() < .002:
            self.big = True
            s = (s + "x") * (r.choice([260, 1030, 5000]) // (len(s) + 1) + 1)
        s = "".join(list(s))        # never the same object twice
        self.pool.append(s)
        return s

    def xmlstr(self):
        while True:
            s = self.string()
            if xml_ok(s):
                return s

    def key(self):
        r = self.r
        if r.random() < 0.6:
            s = r.choice(KEYS)
        else:
            s = self.string()
        self.pool.append(s)
        return s

    def integer(self):
        r = self.r
        if self.ints and r.random() < .3:
            n = r.choice(self.ints) + r.choice([0, 0, 0, 1, -1])
            n = r.choice([1, 1, 1, -1]) * n
        else:
            n = self.new_integer()
        self.ints.append(n)
        return n

    def new_integer(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice(INTS)
        if x < 0.5 and self.lits[1]:
            return r.choice(self.lits[1])
        if x < 0.8:
            return r.randint(-20, 120)
        return r.randint(-10 ** 6, 10 ** 6) if r.random() < .7 else r.randint(-2 ** 70, 2 ** 70)

    def nat(self):
        return abs(self.integer())

    def real(self):
        r = self.r
        if self.reals and r.random() < .3:
            f = r.choice(self.reals)
            f = r.choice([f, f, -f, f * (1 + 2.0 ** -52), f / (1 + 2.0 ** -52), float(int(f)) if abs(f) < 1e18 else f])
            if f - f != 0.0:
                f = 0.0
        else:
            f = self.new_real()
        self.reals.append(f)
        return f

    def new_real(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.choice(FLOATS)
        if x < 0.7:
            return float(r.randint(-1000, 1000))
        if x < 0.9:
            return r.uniform(-1000, 1000)
        return r.uniform(-1, 1) * 10 ** r.randint(-200, 200)

    def stamp(self, ms=False, reuse=True):
        r = self.r
        if reuse and getattr(self, "stamps", None) and r.random() < 0.4:
            b = r.choice(self.stamps)
            d = r.choice([0, 0, 1, -1, 1000, -1000, 999, 1000000, -1000000, 60000000, 3600000000, -86400000000])
            try:
                b = b + _dt.timedelta(microseconds=d)
                if r.random() < 0.3:
                    b = b.astimezone(self.zone())
            except OverflowError:
                pass
        else:
            y = r.choice([1970, 2000, 2012, 2020, 1999, 2100, 1, 999, 1000, 9998, r.randint(2, 9997)])
            b = _dt.datetime(y, r.randint(1, 12), r.randint(1, 28), r.choice([0, 23, r.randint(0, 23)]),
                             r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]),
                             r.choice([0, 1, 999, 1000, 1001, 10000, 100000, 999000, 999999, r.randint(0, 999999)]), self.zone())
            if r.random() < 0.1:
                b = b.replace(month=2, day=29) if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else b.replace(month=12, day=31)
        if ms:
            b = b.replace(microsecond=b.microsecond // 1000 * 1000)
        if not hasattr(self, "stamps"):
            self.stamps = []
        self.stamps.append(b)
        return b

    def zone(self):
        r = self.r
        m = r.choice([0, 0, 60, 120, -60, -300, 330, -210, 345, 1, -1, 59, -59, 61, -61, 1439, -1439, 840, -720,
                      r.randint(-1439, 1439)])
        if r.random() < 0.15:
            return _dt.timezone(_dt.timedelta(minutes=m), r.choice(["CET", "UTC", "X", "UTC+01:00", "Z"]))
        return _dt.timezone(_dt.timedelta(minutes=m))

    def uuid(self):
        r = self.r
        if getattr(self, "uuids", None) and r.random() < 0.3:
            return uuid.UUID(int=r.choice(self.uuids).int)
        u = uuid.UUID(int=r.choice([0, 1, 2 ** 128 - 1, 2 ** 127, 2 ** 64, 0xA << 124, r.getrandbits(128), r.getrandbits(128),
                                    r.getrandbits(128)]))
        if not hasattr(self, "uuids"):
            self.uuids = []
        self.uuids.append(u)
        return u

    def length(self):
        r = self.r
        if self.big:
            return r.choice([0, 1, 1, 2])
        if r.random() < .004:
            self.big = True
            return r.choice([20, 33, 65, 130])
        x = r.random()
        if x < 0.2:
            return 0
        if x < 0.85:
            return r.randint(1, 3)
        if x < 0.97:
            return r.randint(3, 7)
        return r.randint(8, int(8 + 16 * self.scale))

    # ---- model objects
    def xid(self):
        from opyenxes.id.XID import XID
        return XID(self.uuid())

    def extension(self):
        from opyenxes.extension.XExtensionManager import XExtensionManager
        m = XExtensionManager()
        return self.r.choice([m.get_by_prefix(p) for p in
                              ("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time")])

    def other_extension(self):
        from opyenxes.extension.XExtension import XExtension
        from urllib.parse import urlparse
        if self.chance(0.5):
            return self.extension()
        return XExtension(self.string(), self.string(), urlparse("http://e.x/" + self.r.choice(["a", "b", "c", "A", "d/e"])))

    KINDS = ("Literal", "Discrete", "Continuous", "Boolean", "Timestamp", "ID", "List", "Container")

    def attr(self, kind=None, key=None, depth=2, xml=False, ms=False, fan=None):
        from opyenxes.model.XAttributeLiteral import XAttributeLiteral
        from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
        from opyenxes.model.XAttributeContinuous import XAttributeContinuous
        from opyenxes.model.XAttributeBoolean import XAttributeBoolean
        from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
        from opyenxes.model.XAttributeID import XAttributeID
        from opyenxes.model.XAttributeList import XAttributeList
        from opyenxes.model.XAttributeContainer import XAttributeContainer
        r = self.r
        if depth > 0 and not self.big and r.random() < .003:
            self.big = True
            a = top = self.attr(kind, key, 0, xml, ms)
            for _ in range(r.choice([12, 25, 40])):
                if isinstance(a, (XAttributeList, XAttributeContainer)) and xml:
                    break
                b = self.attr(None, None, 0, xml, ms)
                a.get_attributes()[b.get_key()] = b
                a = b
            return top
        if key is None:
            key = self.key()
            while xml and not xml_ok(key):
                key = self.key()
        if kind is None:
            kind = r.choice(self.KINDS if depth > 0 else self.KINDS[:6])
        ext = None
        if r.random() < 0.25:
            ext = self.extension()
        if kind == "Literal":
            a = XAttributeLiteral(key, self.xmlstr() if xml else self.string(), ext)
        elif kind == "Discrete":
            a = XAttributeDiscrete(key, self.integer(), ext)
        elif kind == "Continuous":
            a = XAttributeContinuous(key, self.real(), ext)
        elif kind == "Boolean":
            a = XAttributeBoolean(key, r.random() < .5, ext)
        elif kind == "Timestamp":
            a = XAttributeTimestamp(key, self.stamp(ms), ext)
        elif kind == "ID":
            a = XAttributeID(key, self.xid(), ext)
        else:
            a = (XAttributeList if kind == "List" else XAttributeContainer)(key, ext)
            if depth > 0:
                for _ in range(self.length()):
                    a.add_to_collection(self.attr(depth=depth - 1, xml=xml, ms=ms))
            if xml:
                return a
        if depth > 0 and r.random() < 0.35:
            for _ in range(r.choice([1, 1, 2, 3])):
                c = self.attr(depth=depth - 1, xml=xml, ms=ms)
                a.get_attributes()[c.get_key()] = c
        return a

    def attrmap(self, depth=2, xml=False, ms=False, n=None):
        from opyenxes.model.XAttributeMap import XAttributeMap
        m = XAttributeMap()
        for _ in range(self.length() if n is None else n):
            a = self.attr(depth=depth, xml=xml, ms=ms)
            m[a.get_key()] = a
        return m

    def typical(self, m, xml=False, ms=False, stamped=0.6):
        """Adds the attributes events usually carry, with their usual kinds."""
        r = self.r
        for k in ("concept:name", "lifecycle:transition", "org:resource"):
            if r.random() < 0.5:
                m[k] = self.attr("Literal", k, depth=r.choice([0, 0, 1]), xml=xml, ms=ms)
            elif k in m and r.random() < .7:
                del m[k]
        if r.random() < stamped:
            m["time:timestamp"] = self.attr("Timestamp", "time:timestamp", depth=0, ms=ms)
        elif "time:timestamp" in m:
            del m["time:timestamp"]
        if r.random() < .3:
            items = list(m.items())
            r.shuffle(items)
            m.clear()
            m.update(items)
        return m

    def event(self, depth=1, xml=False, ms=False, stamped=0.6):
        from opyenxes.model.XEvent import XEvent
        m = self.attrmap(depth, xml, ms, n=self.r.choice([0, 0, 1, 2, 3]))
        m = self.typical(m, xml, ms, stamped)
        return XEvent(m, self.xid_fresh()) if self.chance(.5) else XEvent(m)

    def xid_fresh(self):
        from opyenxes.id.XID import XID
        return XID(uuid.UUID(int=self.r.getrandbits(128)))

    def trace(self, depth=1, xml=False, ms=False, stamped=0.6):
        from opyenxes.model.XTrace import XTrace
        m = self.attrmap(depth, xml, ms, n=self.r.choice([0, 0, 1, 2]))
        if self.chance(.5):
            m["concept:name"] = self.attr("Literal", "concept:name", depth=0, xml=xml)
        t = XTrace(m)
        for _ in range(self.length()):
            t.append(self.event(depth, xml, ms, stamped))
        return t

    def classifier(self, ok=lambda s: True):
        from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
        from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
        from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
        from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
        from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice([XEventNameClassifier, XEventResourceClassifier, XEventLifeTransClassifier])()
        if x < .4:
            return XEventAndClassifier([self.classifier(ok) for _ in range(r.choice([1, 2, 3]))])
        ks = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
            k = r.choice(["concept:name", "lifecycle:transition", "org:resource"]) if r.random() < .5 else self.key()
            if ok(k):
                ks.append(k)
        nm = self.string()
        while not ok(nm):
            nm = self.string()
        return XEventAttributeClassifier(nm, ks or ["concept:name"])

    def log(self, depth=1, xml=False, ms=False, stamped=0.6, full=True):
        from opyenxes.model.XLog import XLog
        r = self.r
        m = self.attrmap(depth, xml, ms, n=r.choice([0, 0, 1, 2]))
        if self.chance(.5):
            m["concept:name"] = self.attr("Literal", "concept:name", depth=0, xml=xml)
        g = XLog(m)
        if full:
            ok = (lambda s: xml_ok(s) and "'" not in s and s.strip() != "") if xml else (lambda s: True)
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                g.get_classifiers().append(self.classifier(ok))
            for lst in (g.get_global_trace_attributes(), g.get_global_event_attributes()):
                for _ in range(r.choice([0, 0, 1, 2])):
                    lst.append(self.attr(depth=1, xml=xml, ms=ms))
            for _ in range(r.choice([0, 0, 1, 3])):
                g.get_extensions().add(self.extension())
        for _ in range(self.length()):
            g.append(self.trace(depth, xml, ms, stamped))
        if len(g) and self.chance(.1):       # one event or trace in two places
            t = r.choice(list(g))
            x = r.randrange(3)
            if x == 0:
                g.append(t)
            elif len(t):
                e = r.choice(list(t))
                (t if x == 1 else r.choice(list(g))).append(e)
        return g

    # ---- by annotation
    def arguments(self, anns):
        """One value per annotation; values of one kind are often equal or near each other."""
        r = self.r
        out = []
        for i, ann in enumerate(anns):
            prev = [out[j] for j in range(i) if repr(anns[j]) == repr(ann)]
            if prev and r.random() < .3 and (isinstance(ann, vspec._TypeExpr) or ann in (str, int, float, bool)):
                v = r.choice(prev)
                v = list(v) if type(v) is list else v
                if type(v) is int and r.random() < .3:
                    v += r.choice([-1, 1])
                elif type(v) is list and v and r.random() < .4:
                    if r.random() < .5:
                        v.pop(r.randrange(len(v)))
                    else:
                        r.shuffle(v)
            else:
                v = self.make(ann)
            out.append(v)
        return out

    def make(self, ann):
        r = self.r
        if isinstance(ann, vspec._TypeExpr):
            if ann.op == "List":
                return [self.make(ann.args[0]) for _ in range(self.length())]
            if ann.op == "Map":
                return {self.make(ann.args[0]): self.make(ann.args[1]) for _ in range(self.length())}
            if ann.op == "Opt":
                return None if r.random() < .3 else self.make(ann.args[0])
            if ann.op == "OneOf":
                return self.make(r.choice(ann.args))
            if ann.op == "Xml":
                n = ann.args[0].__name__
                if n.startswith("XAttribute") and n not in ("XAttribute", "XAttributeMap"):
                    return self.attr(kind=n[10:], xml=True, ms=True)
                make = {"XAttribute": self.attr, "XAttributeMap": self.attrmap, "XEvent": self.event, "XTrace": self.trace, "XLog": self.log}[n]
                return make(xml=True, ms=True)
            if ann.op == "Const":
                return r.choice(ann.args)
            if ann.op == "Key":
                return self.key()
            if ann.op == "XmlStr":
                return self.xmlstr()
            if ann.op == "Word":
                return "".join(self.xmlstr().split()) or self.r.choice("xyz")
            if ann.op == "Stamp":
                return self.stamp()
            if ann.op == "Nat":
                return self.nat()
        if ann is str:
            return self.string()
        if ann is bool:
            return r.random() < .5
        if ann is int:
            return self.integer()
        if ann is float:
            return self.real()
        if ann is uuid.UUID:
            return self.uuid()
        if isinstance(ann, type):
            n = ann.__name__
            if n in REGISTERED:
                return REGISTERED[n](self)
            if n == "XID":
                return self.xid()
            if n == "XAttribute":
                return self.attr()
            if n == "XAttributeMap":
                return self.attrmap()
            if n == "XEvent":
                return self.event()
            if n == "XTrace":
                return self.trace()
            if n == "XLog":
                return self.log()
            if n == "XExtension":
                return self.other_extension()
            if n in ("XElement",):
                return r.choice([self.event, self.trace, self.log])()
            if n == "XAttributable":
                return r.choice([self.event, self.trace, self.log, self.attr])()
            if n == "XEventAttributeClassifier":
                return self.classifier()
            if n.startswith("XAttribute") and n[10:] in self.KINDS:
                return self.attr(n[10:])
            if n == "Random":
                return random.Random(r.getrandbits(32))
            if n == "Gen":
                return self
        raise TypeError("no generator for %r" % (ann,))


def _recorded(name):
    f = getattr(Gen, name)

    def g(self, *a, **k):
        self.nest = getattr(self, "nest", 0) + 1
        try:
            v = f(self, *a, **k)
        finally:
            self.nest -= 1
        if self.nest == 0:
            self.__dict__.setdefault("made", []).append(v)
        return v
    setattr(Gen, name, g)


for _n in ("string", "xmlstr", "key", "integer", "nat", "real", "stamp", "uuid", "extension", "other_extension", "attr", "attrmap",
           "event", "trace", "classifier", "log"):
    _recorded(_n)

REGISTERED = {}


def register(name):
    def deco(f):
        REGISTERED[name] = f
        return f
    return deco
