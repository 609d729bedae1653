"""C10 — time bounds are the earliest and latest registered timestamps."""
import datetime
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.info.XTimeBounds import XTimeBounds
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp


def is_bounds(b, v):
    """b covers exactly the one timestamp v."""
    return b.get_start_date() == v and b.get_end_date() == v


@lemma("C10")
def empty(d: Stamp):
    b = XTimeBounds()
    ensures(b.get_start_date() is None and b.get_end_date() is None and not b.is_within(d), "no bounds before the first timestamp")


@lemma("C10")
def step(v: Stamp, w: Stamp, x: Stamp, d: Stamp):
    """Registering x in bounds [v, w]: start is the minimum, end the maximum."""
    requires(v <= w)
    b = XTimeBounds()
    b.register(v)
    ensures(is_bounds(b, v), "the first timestamp is both bounds")
    b.register(w)
    ensures(b.get_start_date() == v and b.get_end_date() == w, "bounds of two timestamps")
    b.register(x)
    lo = x if x < v else v
    hi = x if x > w else w
    ensures(b.get_start_date() == lo, "start is the earliest")
    ensures(b.get_end_date() == hi, "end is the latest")
    ensures(b.is_within(d) == (lo <= d and d <= hi), "is_within holds exactly between the bounds, both included")


@lemma("C10")
def events(v: Stamp, w: Stamp, k: Key):
    requires(k != "time:timestamp")
    b = XTimeBounds()
    e = XEvent()
    e.get_attributes()[k] = XAttributeTimestamp(k, w)
    b.register(e)
    ensures(b.get_start_date() is None and b.get_end_date() is None, "events without a timestamp do not count")
    e.get_attributes()["time:timestamp"] = XAttributeTimestamp("time:timestamp", v)
    b.register(e)
    ensures(is_bounds(b, v), "an event counts with its timestamp")
    b.register(XEvent())
    ensures(is_bounds(b, v), "events without a timestamp change nothing")


@lemma("C10")
def union(v: Stamp, w: Stamp, x: Stamp, y: Stamp):
    a, b = XTimeBounds(), XTimeBounds()
    a.register(XTimeBounds())
    ensures(a.get_start_date() is None and a.get_end_date() is None, "empty bounds add nothing")
    a.register(v)
    a.register(w)
    b.register(x)
    b.register(y)
    a.register(b)
    a.register(XTimeBounds())
    lo = v if v < w else w
    lo2 = x if x < y else y
    hi = w if v < w else v
    hi2 = y if x < y else x
    ensures(a.get_start_date() == (lo if lo < lo2 else lo2), "start of the union")
    ensures(a.get_end_date() == (hi2 if hi < hi2 else hi), "end of the union")
    ensures(b.get_start_date() == lo2 and b.get_end_date() == hi2, "registered bounds stay as they are")


def bounds(*ts):
    b = XTimeBounds()
    for v in ts:
        b.register(v)
    return b


@lemma("C10", mode="shape")
def state_of_stamps(v: Stamp, w: Stamp, x: Stamp):
    """The state is a function of (earliest, latest): by induction over the registrations every reachable state is one of
    bounds(), bounds(v, w) with v <= w, so that the lemmas above speak of every history."""
    requires(v <= w)
    b = bounds(v, w)
    b.register(x)
    ensures(vars(b) == vars(bounds(x if x < v else v, x if x > w else w)), "one more timestamp")
    ensures(vars(bounds(v)) == vars(bounds(v, v)), "a single timestamp")


@lemma("C10", mode="shape")
def state_of_bounds(v: Stamp, w: Stamp, x: Stamp, y: Stamp):
    requires(v <= w and x <= y)
    b = bounds(v, w)
    b.register(bounds(x, y))
    ensures(vars(b) == vars(bounds(x if x < v else v, y if y > w else w)), "more bounds")
    b = bounds()
    b.register(bounds(x, y))
    ensures(vars(b) == vars(bounds(x, y)), "bounds into empty bounds")
    b = bounds(v, w)
    b.register(bounds())
    ensures(vars(b) == vars(bounds(v, w)), "empty bounds into bounds")
    b = bounds()
    b.register(bounds())
    ensures(vars(b) == vars(bounds()), "empty bounds into empty bounds")


@lemma("C10", mode="shape")
def state_of_events(v: Stamp, w: Stamp, e: XEvent):
    requires(v <= w)
    b, c = bounds(v, w), bounds(v, w)
    a = e.get_attributes().get("time:timestamp")
    requires(a is None or isinstance(a, XAttributeTimestamp))
    b.register(e)
    if a is not None:
        c.register(a.get_value())
    ensures(vars(b) == vars(c), "an event counts as its timestamp, or not at all")
    b, c = bounds(), bounds()
    b.register(e)
    if a is not None:
        c.register(a.get_value())
    ensures(vars(b) == vars(c), "also as the first one")


@lemma("C10", mode="bounded", weight=3)
def any_sequence(g: Gen):
    b = XTimeBounds()
    seen = []
    for _ in range(g.length() + 1):
        x = g.r.randrange(4)
        if x == 0:
            v = g.stamp()
            seen.append(v)
            b.register(v)
        elif x == 1:
            e = g.event()
            a = e.get_attributes().get("time:timestamp")
            if a is not None:
                seen.append(a.get_value())
            b.register(e)
        elif x == 2:
            c = XTimeBounds()
            for _ in range(g.length()):
                v = g.stamp()
                seen.append(v)
                c.register(v)
            b.register(c)
        else:
            d = g.stamp()
            ensures(b.is_within(d) == (bool(seen) and min(seen) <= d <= max(seen)), "is_within holds exactly between the bounds")
        ensures(b.get_start_date() == (min(seen) if seen else None), "start is the earliest registered timestamp")
        ensures(b.get_end_date() == (max(seen) if seen else None), "end is the latest registered timestamp")


@lemma("C10", mode="bounded")
def order_free(vs: List[Stamp], g: Gen):
    a, b = XTimeBounds(), XTimeBounds()
    for v in vs:
        a.register(v)
    ws = list(vs)
    g.r.shuffle(ws)
    for v in ws:
        b.register(v)
    ensures(a.get_start_date() == b.get_start_date() and a.get_end_date() == b.get_end_date(), "the order of registration does not matter")
