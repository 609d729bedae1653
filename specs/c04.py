"""C04 — timestamps and their text form are converted without loss."""
import datetime
from vspec import *
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.utils.XsDateTimeConversion import parse_date_time


@lemma("C04")
def roundtrip(v: Stamp):
    d = parse_date_time(str(XAttributeTimestamp("k", v)))
    ensures(d is not None, "the text form of a timestamp is accepted")
    ensures(d == v.replace(microsecond=v.microsecond // 1000 * 1000), "the instant is kept to the millisecond")
    ensures(d.utcoffset() == v.utcoffset(), "the zone offset is kept")


def two(n):
    return str(n // 10) + str(n % 10)


@lemma("C04")
def text_form(v: Stamp):
    s = str(XAttributeTimestamp("k", v))
    m = v.utcoffset() // datetime.timedelta(minutes=1)
    y = v.year
    ms = v.microsecond // 1000
    want = two(y // 100) + two(y % 100) + "-" + two(v.month) + "-" + two(v.day) + "T" + two(v.hour) + ":" + two(v.minute) + ":" \
        + two(v.second) + "." + str(ms // 100) + two(ms % 100)
    if m == 0:
        want = want + "Z"
    elif m > 0:
        want = want + "+" + two(m // 60) + ":" + two(m % 60)
    else:
        want = want + "-" + two((-m) // 60) + ":" + two((-m) % 60)
    ensures(s == want, "yyyy-mm-ddThh:mm:ss.mmm with Z or a signed hh:mm offset")


class Frac:
    pass


@lemma("C04", weight=2)
def forms(v: Stamp, digits: Const(0, 1, 2, 3, 4, 5, 6), zone: Const("none", "Z", "offset")):
    micro = v.microsecond // 10 ** (6 - digits) * 10 ** (6 - digits) if digits else 0
    w = v.replace(microsecond=micro)
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % (w.year, w.month, w.day, w.hour, w.minute, w.second)
    if digits:
        s += "." + ("%06d" % micro)[:digits]
    if zone == "none":
        w = w.replace(tzinfo=datetime.timezone.utc)
    elif zone == "Z":
        s, w = s + "Z", w.replace(tzinfo=datetime.timezone.utc)
    else:
        m = w.utcoffset() // datetime.timedelta(minutes=1)
        s += "%s%02d:%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60)
    d = parse_date_time(s)
    ensures(d is not None and d == w and d.utcoffset() == w.utcoffset(), "date, time, fraction and zone are read as written")


@lemma("C04")
def total(s: str):
    d = parse_date_time(s)
    ensures(d is None or isinstance(d, datetime.datetime), "any text gives a timestamp or None")
    ensures(d is None or d.tzinfo is not None, "a timestamp read from a text has a zone")


@lemma("C04", mode="bounded", weight=2)
def garbage(s: str, v: Stamp, cut: Nat, put: str):
    d = parse_date_time(s)
    ensures(d is None or isinstance(d, datetime.datetime), "any text gives a timestamp or None")
    t = str(XAttributeTimestamp("k", v))
    cut = cut % (len(t) + 1)
    d = parse_date_time(t[:cut] + put + t[cut + 1:])
    ensures(d is None or isinstance(d, datetime.datetime), "any damaged timestamp gives a timestamp or None")
    for bad in (v.strftime("%Y-%m-%d"), "2010-02-30T00:00:00Z", "2010-01-01T24:00:00", "2010-01-01T00:00:00+24:00", "2010-01-01T00:00:00+1:2:3"):
        ensures(parse_date_time(bad) is None, "no timestamp is made up for an invalid text")


@lemma("C04", mode="bounded", weight=2)
def impossible(v: Stamp, i: Nat, j: Nat, frac: Const("", ".1", ".250", ".999999"), zone: Const("", "Z", "+00:00", "-05:30", "+14:00")):
    p = [v.year, v.month, v.day, v.hour, v.minute, v.second]
    first = [10000, 13, 32, 24, 60, 62]
    good = "%04d-%02d-%02dT%02d:%02d:%02d"
    i = i % 12
    if i < 6:
        p[i] = first[i] + j % (100 - first[i] if i else 5)
        t = good % tuple(p) + frac + zone
    elif i == 6:
        t = (good % tuple(p))[:j % 18] + frac + zone
    elif i == 7:
        t = "%04d-02-%02dT00:00:00" % (v.year, 30 + j % 2) + frac + zone
    elif i == 8:
        t = "%04d-%02d-31T00:00:00" % (v.year, (4, 6, 9, 11)[j % 4]) + frac + zone
    elif i == 9:
        t = good % tuple(p) + frac + "+-"[j % 2] + "%02d:%02d" % (24 + j % 76, j % 60)
    elif i == 10:
        t = good % tuple(p) + frac + "+-"[j % 2] + "%02d" % (j % 24) + ("" if j % 3 else ":")
    else:
        p[0] = 0
        t = good % tuple(p) + frac + zone
    ensures(parse_date_time(t) is None, "no timestamp is made up for an impossible date, time or zone")


@lemma("C04")
def millis(n: int, v: Stamp):
    a = XAttributeTimestamp("k", v)
    exact = (v - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) / datetime.timedelta(milliseconds=1)
    ensures(abs(a.get_value_millis() - exact) < 0.05, "get_value_millis is the milliseconds since the epoch, zone and fraction included")
    n = n % 250000000000000 - 60000000000000
    a.set_value_millis(n)
    ensures(a.get_value_millis() == n, "reading the milliseconds gives the number that was set")
    d = parse_date_time(str(a))
    ensures(XAttributeTimestamp("k", n).get_value_millis() == n, "also when it is given at the start")
    ensures(d is not None and d == a.get_value(), "the text form of milliseconds is the same instant")
