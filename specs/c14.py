"""C14 — nested cost values: assigned and extracted by the path of keys that leads to them."""
from vspec import *
from gens import Gen
from specs.common import *
from opyenxes.model.XElement import XElement
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.extension.std.XCostExtension import XCostExtension, XCostAmount, XCostDriver, XCostType
from opyenxes.extension.std.XAbstractNestedAttributeSupport import XAbstractNestedAttributeSupport

KINDS3 = (("cost:amount", "amount"), ("cost:driver", "driver"), ("cost:type", "type"))


def api(what):
    x = XCostExtension()
    return {"amount": (x.extract_nested_amounts, x.extract_amounts, x.assign_nested_amounts, x.assign_amounts),
            "driver": (x.extract_nested_drivers, x.extract_drivers, x.assign_nested_drivers, x.assign_drivers),
            "type": (x.extract_nested_types, x.extract_types, x.assign_nested_types, x.assign_types)}[what]


def expected(element, key, prefix=()):
    """Every path of keys below the element to an attribute that carries the value."""
    out = {}
    for k, a in element.get_attributes().items():
        p = prefix + (k,)
        v = a.get_attributes().get(key)
        if v is not None:
            out[p] = v.get_value()
        out.update(expected(a, key, p))
    return out


def value_for(g, what):
    if what == "amount":
        return abs(g.real()) + 0.5
    while True:
        s = g.string()
        if s.strip() != "":
            return s


def keys_for(g):
    return g.r.choice(["a", "b", "c", "d:e", "k", g.key()])


@lemma("C14", mode="bounded", weight=3)
def assign_then_extract(g: Gen):
    key, what = g.r.choice(KINDS3)
    nested, flat, assign_nested, assign_flat = api(what)
    want = {}
    for _ in range(g.r.choice([0, 1, 2, 3, 5])):
        p = tuple(keys_for(g) for _ in range(g.r.choice([1, 1, 2, 2, 3, 4])))
        if not any(k.startswith("cost:") for k in p):
            want[p] = value_for(g, what)
    e = XEvent()
    keep = g.attr(key="other", depth=1) if g.chance(.5) else None
    if keep is not None:
        e.get_attributes()["other"] = keep
        s = snapshot(keep)
    before = expected(e, key)
    g.made = [what, want]
    assign_nested(e, want)
    want.update(before)
    ensures(nested(e) == want, "exactly the assigned values are extracted, by their paths")
    ensures(flat(e) == {p[0]: v for p, v in want.items() if len(p) == 1}, "the flat extraction gives the values of paths of one key")
    ensures(keep is None or (e.get_attributes()["other"] is keep and unchanged(s)), "other attributes are left alone")
    for p in want:
        a = e
        for k in p:
            a = a.get_attributes()[k]
            ensures(a.get_key() == k, "attributes on the path carry their keys")


@lemma("C14", mode="bounded", weight=2)
def extraction(g: Gen):
    key, what = g.r.choice(KINDS3)
    nested, flat, _, _ = api(what)
    e = g.event(depth=3)

    def sprinkle(a):
        for c in list(a.get_attributes().values()):
            sprinkle(c)
            if g.chance(.4):
                v = XAttributeContinuous(key, abs(g.real())) if what == "amount" else XAttributeLiteral(key, g.string())
                c.get_attributes()[key] = v
    sprinkle(e)
    s = snapshot(e)
    g.made = [e]
    try:
        want = expected(e, key)
    except AttributeError:
        requires(False)
    ensures(nested(e) == want, "every value is extracted by the path of keys that leads to it")
    ensures(flat(e) == {p[0]: v for p, v in want.items() if len(p) == 1}, "the flat extraction gives the values of paths of one key")
    ensures(unchanged(s), "extraction changes nothing")


@lemma("C14", mode="bounded", weight=2)
def flat_values(g: Gen):
    key, what = g.r.choice(KINDS3)
    nested, flat, _, assign_flat = api(what)
    e = g.event(depth=0)
    for k in [k for k in e.get_attributes() if k.startswith("cost:")]:
        del e.get_attributes()[k]
    old = {k: a for k, a in e.get_attributes().items()}
    want = {}
    for _ in range(g.r.choice([0, 1, 2, 4])):
        k = g.r.choice(list(old)) if old and g.chance(.4) else keys_for(g)
        if not k.startswith("cost:"):
            want[k] = value_for(g, what)
    g.made = [what, e, want]
    vals = {k: a.get_value() for k, a in old.items() if not isinstance(a, XAttributeCollection)}
    try:
        full = expected(e, key)
    except AttributeError:
        requires(False)
    assign_flat(e, want)
    full.update({(k,): v for k, v in want.items()})
    ensures(nested(e) == full, "the assigned values are extracted, under paths of one key")
    ensures(flat(e) == {p[0]: v for p, v in full.items() if len(p) == 1}, "the flat extraction gives the values of paths of one key")
    for k, a in old.items():
        ensures(e.get_attributes()[k] is a and (k not in vals or a.get_value() is vals[k]), "existing attributes keep their value")
    ensures(set(e.get_attributes()) == set(old) | set(want), "no other attribute is added or removed")


@lemma("C14")
def path_of_two(k: Key, k2: Key, v: str):
    requires(v.strip() != "" and k != "cost:driver" and k2 != "cost:driver")
    e = XEvent()
    XCostExtension().assign_nested_drivers(e, {(k, k2): v})
    a = e.get_attributes()[k]
    b = a.get_attributes()[k2]
    ensures(len(e.get_attributes()) == 1 and len(a.get_attributes()) == 1 and len(b.get_attributes()) == 1, "only the path is created")
    ensures(b.get_attributes()["cost:driver"].get_value() == v, "the value is at the end of the path")
    ensures(a.get_key() == k and b.get_key() == k2, "attributes on the path carry their keys")
    n = XCostExtension().extract_nested_drivers(e)
    ensures(len(n) == 1 and n.get((k, k2)) == v, "the value is extracted by its path")


class Descent(XAbstractNestedAttributeSupport):
    """Writes down the calls for the elements below a given one, instead of making them."""
    def setup(self, top, value=None):
        self.top = top
        self.value = value
        self.below = []
        self.into = []
        self.assigned = []

    def extract_value(self, element):
        return self.value

    def assign_value(self, element, value):
        self.assigned.append((element, value))

    def __extract_nested_values_private__(self, element, nested_values, keys):
        if element is self.top:
            super().__extract_nested_values_private__(element, nested_values, keys)
        else:
            self.below.append((element, list(keys)))
            self.into.append(nested_values)

    def __assign_nested_values_private__(self, element, keys, value):
        if element is self.top:
            super().__assign_nested_values_private__(element, keys, value)
        else:
            self.below.append((element, keys, value))


@lemma("C14", mode="shape")
def one_level_of_extraction(a: XAttribute, m: XAttributeMap, path: List[Key], v: Opt[str]):
    a.set_attributes(m)
    d = Descent()
    d.setup(a, v)
    values = {}
    d.__extract_nested_values_private__(a, values, path)
    ensures(values == ({} if v is None else {tuple(path): v}), "the value of an attribute, if it has one, is filed under its path")
    ensures(len(d.below) == len(m), "every attribute below is visited")
    for x, b in zip(d.below, m.values()):
        ensures(x[0] is b and x[1] == path + [b.get_key()], "under the path extended by its own key")
    ensures(all(x is values for x in d.into), "into the same result")


@lemma("C14", mode="shape")
def extraction_starts(e: XEvent):
    d = Descent()
    d.setup(None)
    r = d.extract_nested_values(e)
    ensures(len(d.below) == len(e.get_attributes()), "every attribute of the element is visited")
    for x, b in zip(d.below, e.get_attributes().values()):
        ensures(x[0] is b and x[1] == [b.get_key()], "under the path of its own key")
    ensures(len(r) == 0 and all(x is r for x in d.into), "into one new result")


@lemma("C14", mode="shape")
def one_level_of_assignment(e: XEvent, k: Key, path: List[Key], v: str, q: Key):
    d = Descent()
    d.setup(e)
    m = e.get_attributes()
    n, a, was = len(m), m.get(k), m.get(q)
    d.__assign_nested_values_private__(e, [k] + path, v)
    b = m.get(k)
    if a is None:
        ensures(type(b) is XAttributeLiteral and b.get_key() == k and b.get_value() == "" and len(b.get_attributes()) == 0,
                "a missing attribute on the path is made")
    else:
        ensures(b is a, "an attribute on the path is kept")
    ensures(len(d.below) == 1 and d.below[0][0] is b and d.below[0][1] == path and d.below[0][2] == v, "the rest of the path starts there")
    ensures(len(m) == (n + 1 if a is None else n) and (q == k or m.get(q) is was), "no other attribute is added, removed or replaced")
    ensures(len(d.assigned) == 0, "nothing is assigned on the way")


@lemma("C14", mode="shape")
def assignment_ends(a: XAttribute, e: XEvent, v: str):
    d = Descent()
    d.setup(a)
    d.__assign_nested_values_private__(a, [], v)
    ensures(len(d.assigned) == 1 and d.assigned[0][0] is a and d.assigned[0][1] == v and len(d.below) == 0, "the value is assigned at the end of its path")
    d.setup(e)
    d.__assign_nested_values_private__(e, [], v)
    ensures(len(d.assigned) == 0 and len(d.below) == 0, "an empty path assigns nothing to an event")


@lemma("C14", mode="shape")
def assignment_starts(e: XEvent, values: Map[Key, str]):
    d = Descent()
    d.setup(None)
    d.assign_nested_values(e, values)
    ensures(len(d.below) == len(values), "every value is assigned")
    for x, k in zip(d.below, values.keys()):
        ensures(x[0] is e and x[1] is k and x[2] == values[k], "at its path, from the element")


@lemma("C14")
def support_values(e: XElement, t: str, n: float, q: Key, which: Const("amount", "driver", "type")):
    requires(t.strip() != "" and n > 0.0)
    s, key, v, ext = {"amount": (XCostAmount(), "cost:amount", n, XCostExtension().extract_amount),
                      "driver": (XCostDriver(), "cost:driver", t, XCostExtension().extract_driver),
                      "type": (XCostType(), "cost:type", t, XCostExtension().extract_type)}[which]
    requires(q != key)
    m = e.get_attributes()
    other = m.get(q)
    s.assign_value(e, v)
    ensures(m[key].get_value() == v, "the value is assigned under its own key")
    ensures(s.extract_value(e) == v and ext(e) == v, "and extracted from it")
    ensures(m.get(q) is other, "every other attribute is left alone")
    del m[key]
    ensures(s.extract_value(e) is None and ext(e) is None, "no value without the attribute")


class Flat(XAbstractNestedAttributeSupport):
    def setup(self, values):
        self.values = values
        self.calls = []

    def extract_nested_values(self, element):
        self.calls.append(element)
        return self.values

    def assign_nested_values(self, element, values):
        self.calls.append(element)
        self.values = values


@lemma("C14", mode="shape")
def flat_is_nested(e: XEvent, k: Key, k2: Key, k3: Key, v: str, w: str, u: str):
    f = Flat()
    f.setup({(k, k2): v, (k2,): w, (k3, k2, k): v, (k3,): u})
    r = f.extract_values(e)
    ensures(r == {k2: w, k3: u}, "the flat extraction gives the values of paths of one key")
    ensures(len(f.calls) == 1 and f.calls[0] is e, "of the element asked for")
    f.setup(None)
    f.assign_values(e, {k2: w, k3: u})
    ensures(f.values == {(k2,): w, (k3,): u}, "the flat assignment assigns to paths of one key")
    ensures(len(f.calls) == 1 and f.calls[0] is e, "of the element asked for")


class Asked:
    """Stands for the three kinds of nested values and writes down what they are asked."""
    calls = []

    def __init__(self):
        pass

    def extract_values(self, element):
        return ("extract", element)

    def extract_nested_values(self, element):
        return ("extract nested", element)

    def assign_values(self, element, values):
        Asked.calls.append(("assign", element, values))

    def assign_nested_values(self, element, values):
        Asked.calls.append(("assign nested", element, values))


@lemma("C14", mode="shape")
def operations(e: XEvent, values: Map[Key, str], which: Const("amount", "driver", "type")):
    cost = XCostExtension()
    import opyenxes.extension.std.XCostExtension as module
    if which == "amount":
        module.XCostAmount = Asked
    elif which == "driver":
        module.XCostDriver = Asked
    else:
        module.XCostType = Asked
    Asked.calls = []
    nested, flat, assign_nested, assign_flat = api(which)
    ensures(nested(e) == ("extract nested", e) and flat(e) == ("extract", e), "the operations of the extension are those of its kind of value")
    assign_nested(e, values)
    assign_flat(e, values)
    c = Asked.calls
    ensures(len(c) == 2 and c[0][0] == "assign nested" and c[1][0] == "assign" and all(x[1] is e and x[2] is values for x in c), "likewise for assignment")
