"""C06 — clones are equal in content, deep, and independent of the original."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XAttribute import XAttribute
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XLog import XLog
from opyenxes.id.XID import XID
import uuid


@lemma("C06", weight=2)
def attribute(a: XAttribute):
    s = snapshot(a)
    c = a.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(copied(a, c), "the clone has the kind, key, value, extension, nested attributes and members of the original")
    ensures(isinstance(a, XAttributeCollection) or a == c, "the clone is equal to the original")
    ensures(disjoint(a, c), "the clone shares nothing that can change")


@lemma("C06")
def attribute_map(m: XAttributeMap):
    s = snapshot(m)
    c = m.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(copied_map(m, c), "the clone maps the same keys, in order, to clones")
    ensures(disjoint(m, c), "the clone shares nothing that can change")


@lemma("C06")
def event(e: XEvent):
    s = snapshot(e)
    c = e.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(type(c) is XEvent and copied_map(e.get_attributes(), c.get_attributes()), "the clone has copies of the attributes")
    ensures(c.get_id() is not e.get_id() and c != e and c.get_id() != e.clone().get_id(), "the clone is an event of its own")
    ensures(disjoint(e, c), "the clone shares nothing that can change")


@lemma("C06")
def trace(t: XTrace):
    s = snapshot(t)
    c = t.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(type(c) is XTrace and copied_map(t.get_attributes(), c.get_attributes()), "the clone has copies of the attributes")
    ensures(len(c) == len(t) and all(x is not y and x != y and copied_map(x.get_attributes(), y.get_attributes()) for x, y in zip(t, c)),
            "the clone has copies of the events, in order")
    ensures(disjoint(t, c), "the clone shares nothing that can change")


@lemma("C06", weight=2)
def log(g: XLog, f: str, v: str):
    g.set_features(f, v)
    s = snapshot(g)
    c = g.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(type(c) is XLog and copied_map(g.get_attributes(), c.get_attributes()), "the clone has copies of the attributes")
    ensures(len(c) == len(g), "the clone has as many traces")
    ensures(all(t is not u and len(t) == len(u) and copied_map(t.get_attributes(), u.get_attributes())
                and all(x is not y and copied_map(x.get_attributes(), y.get_attributes()) for x, y in zip(t, u))
                for t, u in zip(g, c)), "the clone has copies of the traces and events, in order")
    for a, b in ((g.get_classifiers(), c.get_classifiers()), (g.get_global_trace_attributes(), c.get_global_trace_attributes()),
                 (g.get_global_event_attributes(), c.get_global_event_attributes()), (g.get_extensions(), c.get_extensions()),
                 (g.get_features(), c.get_features())):
        ensures(a is not b and a == b, "classifiers, globals, extensions and features are carried over in containers of their own")


class Mutation:
    """What can be done to one log through its public interface."""

    @staticmethod
    def apply(g, log, r):
        ev = [e for t in log for e in t]
        x = r.randrange(9)
        if x == 0 and len(log):
            del log[0]
        elif x == 1 and ev:
            r.choice(ev).get_attributes()["new:key"] = g.attr()
        elif x == 2 and ev:
            r.choice(ev).get_attributes().clear()
        elif x == 3:
            log.get_attributes()["new:key"] = g.attr()
        elif x == 4:
            log.get_classifiers().append(g.classifier())
        elif x == 5:
            log.get_extensions().clear()
        elif x == 6:
            log.set_features("f", "w")
        elif x == 7 and len(log) and len(log[0]):
            log[0].reverse()
        else:
            log.get_global_event_attributes().append(g.attr())
        for e in ev:
            for a in e.get_attributes().values():
                if r.random() < .2:
                    a.get_attributes()["z"] = g.attr(depth=0)
                    if hasattr(a, "set_value"):
                        a.set_value(None)
                    else:
                        a.add_to_collection(g.attr(depth=0))


@lemma("C06", mode="bounded", weight=2)
def independent(g: Gen):
    log = g.log()
    c = log.clone()
    s = snapshot(c)
    for _ in range(4):
        Mutation.apply(g, log, g.r)
    ensures(unchanged(s), "changing the original does not change the clone")
    s = snapshot(log)
    for _ in range(4):
        Mutation.apply(g, c, g.r)
    ensures(unchanged(s), "changing the clone does not change the original")


@lemma("C06", mode="bounded", weight=1)
def any_place(g: Gen):
    """A map keeps an attribute under the key it was given, be it the attribute's own or not."""
    log = g.log(depth=1, full=False)
    for x in [log] + [y for t in log for y in [t] + list(t)]:
        m = x.get_attributes()
        for _ in range(g.r.choice([0, 1, 2])):
            m[g.key()] = g.r.choice(list(m.values())).clone() if m and g.chance(.5) else g.attr(depth=1)
    s = snapshot(log)
    c = log.clone()
    ensures(unchanged(s), "cloning leaves the original as it is")
    ensures(copied_map(log.get_attributes(), c.get_attributes()) and len(c) == len(log), "the attributes of the log under their keys")
    for t, u in zip(log, c):
        ensures(copied_map(t.get_attributes(), u.get_attributes()) and len(t) == len(u), "the attributes of the traces under their keys")
        ensures(all(copied_map(x.get_attributes(), y.get_attributes()) for x, y in zip(t, u)), "the attributes of the events under their keys")
    ensures(disjoint(log, c), "the clone shares nothing that can change")
