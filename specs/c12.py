"""C12 — ordered insertion into a trace."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XTrace import XTrace


def ts(e):
    a = e.get_attributes().get("time:timestamp")
    return None if a is None else a.get_value()


def stamped(v):
    e = XEvent()
    e.get_attributes()["time:timestamp"] = XAttributeTimestamp("time:timestamp", v)
    return e


def timed(e):
    a = e.get_attributes().get("time:timestamp")
    return a is None or isinstance(a, XAttributeTimestamp)


@lemma("C12", weight=2)
def any_trace(t: XTrace, e: XEvent):
    requires(timed(e) and forall(t, timed))
    old = list(t)
    s = snapshot(t.get_attributes(), e, old)
    i = t.insert_ordered(e)
    ensures(0 <= i <= len(old) and t[i] is e, "the returned index is the position of the inserted event")
    rest = t[:i] + t[i + 1:]
    ensures(len(rest) == len(old) and forall(zip(rest, old), lambda p: p[0] is p[1]), "the other events keep their order")
    ensures(unchanged(s), "no event is changed")
    ensures(ts(e) is not None or i == len(old), "an event without timestamp goes to the end")


@lemma("C12", weight=2)
def ordered_trace(t: XTrace, e: XEvent, n: Nat):
    """In a trace in time order the events that are not later come first: they end at some position n."""
    requires(timed(e) and forall(t, timed) and n <= len(t))
    requires(ts(e) is not None and forall(t, lambda x: ts(x) is not None))
    requires(forall(range(n), lambda k: ts(t[k]) <= ts(e)) and (n == 0 or ts(t[n - 1]) <= ts(e)))
    requires(forall(range(n, len(t)), lambda k: ts(e) < ts(t[k])))
    i = t.insert_ordered(e)
    ensures(i == n and t[n] is e, "behind every event that is not later, before every event that is later")


@lemma("C12")
def missing_stamp(t: XTrace, e: XEvent, n: Nat):
    requires(timed(e) and forall(t, timed))
    requires(ts(e) is not None and n < len(t) and ts(t[n]) is None)
    requires(forall(range(n + 1, len(t)), lambda k: ts(t[k]) is not None and ts(e) < ts(t[k])))
    k = len(t)
    ensures(t.insert_ordered(e) == k and t[k] is e, "a search from the end that meets an event without timestamp appends")


@lemma("C12", mode="bounded", weight=3)
def sorted_values(vs: List[Stamp], v: Stamp):
    t = XTrace(XAttributeMap())
    for x in sorted(vs):
        t.append(stamped(x))
    e = stamped(v)
    i = t.insert_ordered(e)
    got = [ts(x) for x in t]
    ensures(got == sorted(vs + [v]), "a trace in time order stays in time order")
    ensures(t[i] is e and i == sum(1 for x in vs if x <= v), "behind every event that is not later")


@lemma("C12", mode="bounded")
def built(vs: List[Stamp]):
    t = XTrace(XAttributeMap())
    es = [stamped(v) for v in vs]
    for e in es:
        t.insert_ordered(e)
    want = sorted(range(len(vs)), key=lambda j: (vs[j], j))
    ensures(len(t) == len(vs) and all(x is es[j] for x, j in zip(t, want)), "building a trace by ordered insertion sorts it stably")
