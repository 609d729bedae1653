"""Turns a model of the solver into real objects: the arguments with which a failed obligation is replayed under CPython."""
import base64
import datetime
import pickle
import uuid
import z3
from .interp import Obj, Lazy, ABSENT
from .sym import Sym, DT, unlit, uf, INT, SORT, term


class NoInput(Exception):
    pass


class Decoder:
    def __init__(self, model, path):
        self.m = model
        self.path = path
        self.memo = {}
        import opyenxes.model as _  # noqa: F401
        from opyenxes.model.XAttributeLiteral import XAttributeLiteral
        from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
        from opyenxes.model.XAttributeContinuous import XAttributeContinuous
        from opyenxes.model.XAttributeBoolean import XAttributeBoolean
        from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
        from opyenxes.model.XAttributeID import XAttributeID
        from opyenxes.model.XAttributeList import XAttributeList
        from opyenxes.model.XAttributeContainer import XAttributeContainer
        self.kinds = {c.__name__: c for c in (XAttributeLiteral, XAttributeDiscrete, XAttributeContinuous, XAttributeBoolean,
                                              XAttributeTimestamp, XAttributeID, XAttributeList, XAttributeContainer)}

    def eval(self, t):
        return self.m.eval(t, model_completion=True)

    def scalar(self, k, t):
        v = self.eval(t)
        if k == "bool":
            return z3.is_true(v)
        if k == "int":
            return v.as_long()
        if k == "uuid":
            return uuid.UUID(int=v.as_long() % 2 ** 128)
        if k == "float":
            return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
        if k == "str":
            return unlit(v)
        raise NoInput(k)

    def stamp(self, d):
        inst = self.eval(d.inst).as_long() if not isinstance(d.inst, int) else d.inst
        base = datetime.datetime(1970, 1, 1)
        if d.off is None:
            return base + datetime.timedelta(microseconds=inst)
        off = self.eval(d.off).as_long() if not isinstance(d.off, int) else d.off
        tz = datetime.timezone(datetime.timedelta(minutes=off))
        return (base.replace(tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=inst)).astimezone(tz)

    def build(self, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, Sym):
            return self.scalar(v.k, v.t)
        if isinstance(v, DT):
            return self.stamp(v)
        if isinstance(v, Lazy):
            return self.build(v.v) if v.done else None
        if isinstance(v, Obj):
            if id(v) not in self.memo:
                self.memo[id(v)] = (self.obj(v), v)
            return self.memo[id(v)][0]
        raise NoInput(type(v).__name__)

    def obj(self, o):
        r = getattr(o, "recipe", None)
        if r is None:
            raise NoInput("object without a recipe")
        what = r[0]
        if what == "XID":
            from opyenxes.id.XID import XID
            return XID(self.build(r[1]))
        if what == "XExtension":
            from opyenxes.extension.XExtension import XExtension
            from urllib.parse import urlparse
            return XExtension(self.build(r[1]), self.build(r[2]), urlparse(self.build(r[3])))
        if what == "list":
            return self.elements(r[1])
        if what == "map":
            return self.mapping(r[1])
        if what == "attr":
            _, key, vals, amap, ext = r
            if o.cls is None:
                made = [x for x in o.cands if x in vals]
                if not made:
                    o.variants[o.cands[0]]
                c = made[0] if made else o.cands[0]
            else:
                c = o.cls
            k = self.kinds[c.name]
            e = self.build(ext)
            if c.name in ("XAttributeList", "XAttributeContainer"):
                a = k(self.build(key), e)
                for x in self.elements(vals[c]):
                    a.add_to_collection(x)
            else:
                a = k(self.build(key), self.build(vals[c]), e)
            if amap.done:
                a.set_attributes(self.build(amap.v))
            return a
        if what == "event":
            from opyenxes.model.XEvent import XEvent
            return XEvent(self.build(r[1]), self.build(r[2]))
        if what == "trace":
            from opyenxes.model.XTrace import XTrace
            t = XTrace(self.build(r[1]))
            for x in self.elements(r[2]):
                t.append(x)
            return t
        if what == "log":
            from opyenxes.model.XLog import XLog
            t = XLog(self.build(r[1]))
            for x in self.elements(r[2]):
                t.append(x)
            t.get_global_trace_attributes().extend(self.elements(r[3]))
            t.get_global_event_attributes().extend(self.elements(r[4]))
            t.get_classifiers().extend(self.elements(r[5]))
            return t
        if what == "classifier":
            from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
            return XEventAttributeClassifier(self.build(r[1]), self.build(r[2]))
        raise NoInput(what)

    def elements(self, b):
        n = self.eval(b.n).as_long()
        if n > 50:
            raise NoInput("a list of %d elements" % n)
        at = {}
        for i, v in b.got:
            j = i if isinstance(i, int) else self.eval(i.t if isinstance(i, Sym) else i).as_long()
            if 0 <= j < n and j not in at:
                at[j] = v
        out = []
        for j in range(n):
            if j in at:
                out.append(self.build(at[j]))
            elif b.content is not None:
                v = b.make(None, z3.IntVal(j))
                out.append(self.build(v))
            elif at:
                out.append(self.filler(next(iter(at.values()))))
            else:
                raise NoInput("elements nobody looked at")
        return out

    def filler(self, like):
        from opyenxes.model.XEvent import XEvent
        from opyenxes.model.XTrace import XTrace
        r = getattr(like, "recipe", (None,))[0]
        if r == "event":
            return XEvent()
        if r == "trace":
            return XTrace()
        if r == "attr":
            return self.kinds["XAttributeLiteral"]("filler", "")
        return self.build(like)

    def mapping(self, b):
        from opyenxes.model.XAttributeMap import XAttributeMap
        m = XAttributeMap()
        for k, v in b.got:
            if v is not ABSENT:
                m[self.build(k)] = self.build(v)
        return m


def build_all(args, model, path):
    d = Decoder(model, path)
    return [d.build(a) for a in args]


def portable(vals):
    return base64.b64encode(pickle.dumps(vals)).decode()


def unpack(text):
    return pickle.loads(base64.b64decode(text))
