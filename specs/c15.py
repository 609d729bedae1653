"""C15 — the extension manager finds exactly the registered extensions."""
from vspec import *
from gens import Gen
from specs.common import *
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager

STD = [("Concept", "concept"), ("Cost", "cost"), ("Identity", "identity"), ("Lifecycle", "lifecycle"), ("Micro", "micro"),
       ("Organizational", "org"), ("Semantic", "semantic"), ("Time", "time")]


@lemma("C15")
def standard(p: str):
    m = fresh(XExtensionManager)
    for i in range(len(STD)):
        n, q = STD[i]
        x = m.get_by_prefix(q)
        ensures(x is not None and x.get_prefix() == q and x.get_name() == n, "standard extensions are found by prefix")
        ensures(m.get_by_name(n) is x, "standard extensions are found by name")
        ensures(m.get_by_uri(urlparse("http://www.xes-standard.org/" + q + ".xesext")) is x, "standard extensions are found by uri")
        ensures(m.get_index(x) == i and m.get_by_index(i) is x, "standard extensions are numbered")
    ensures(m.get_by_index(len(STD)) is None and m.get_by_index(-1) is None, "nothing else is registered")
    ensures(p in ("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time") or m.get_by_prefix(p) is None,
            "an unknown prefix is not found")


@lemma("C15")
def one_more(n: str, p: str, u: str, n2: str, p2: str):
    requires(n not in ("Concept", "Cost", "Identity", "Lifecycle", "Micro", "Organizational", "Semantic", "Time"))
    requires(n2 not in ("Concept", "Cost", "Identity", "Lifecycle", "Micro", "Organizational", "Semantic", "Time"))
    requires(p not in ("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"))
    requires(p2 not in ("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"))
    m = fresh(XExtensionManager)
    uri = urlparse("http://e.x/" + u)
    for i in range(len(STD)):
        requires(uri != urlparse("http://www.xes-standard.org/" + STD[i][1] + ".xesext"))
    x = XExtension(n, p, uri)
    ensures(m.get_by_uri(uri) is None and m.get_index(x) == -1 and m.get_by_name(n) is None and m.get_by_prefix(p) is None,
            "not found before registration")
    m.register(x)
    ensures(m.get_by_uri(uri) is x and m.get_by_name(n) is x and m.get_by_prefix(p) is x, "found by uri, name and prefix")
    ensures(m.get_index(x) == 8 and m.get_by_index(8) is x and m.get_by_index(9) is None, "numbered last")
    y = XExtension(n2, p2, uri)
    m.register(y)
    ensures(m.get_by_uri(uri) is y and m.get_by_name(n2) is y and m.get_by_prefix(p2) is y, "the later of one uri replaces the earlier")
    ensures(m.get_index(y) == 8 and m.get_by_index(8) is y and m.get_by_index(9) is None, "it keeps the place of the earlier")
    ensures(n == n2 or m.get_by_name(n) is None, "the replaced one is no longer found by name")
    ensures(p == p2 or m.get_by_prefix(p) is None, "the replaced one is no longer found by prefix")


@lemma("C15", mode="bounded", weight=3)
def history(g: Gen):
    m = fresh(XExtensionManager)
    have = [m.get_by_index(i) for i in range(8)]
    uris = [urlparse("http://e.x/" + s) for s in ("a", "b", "c", "A", "a/")] + [have[0].get_uri(), have[7].get_uri()]
    names = ["n", "m", "Concept", "N", g.string()]
    for _ in range(g.r.choice([1, 2, 3, 6])):
        x = XExtension(g.r.choice(names), g.r.choice(["p", "q", "concept", "P", g.string()]), g.r.choice(uris))
        m.register(x)
        at = [i for i, y in enumerate(have) if y.get_uri() == x.get_uri()]
        if at:
            have[at[0]] = x
        else:
            have.append(x)
        g.made.append((x.get_name(), x.get_prefix(), x.get_uri().geturl()))
        for i, y in enumerate(have):
            ensures(m.get_index(XExtension("other", "other", y.get_uri())) == i, "an equal extension has the index of the registered one")
            ensures(m.get_by_index(i) is y and m.get_index(y) == i, "numbered in order of first registration")
            ensures(m.get_by_uri(y.get_uri()) is y, "found by uri")
            ensures(m.get_by_name(y.get_name()) is [z for z in have if z.get_name() == y.get_name()][0], "found by name (the first of equal ones)")
            ensures(m.get_by_prefix(y.get_prefix()) is [z for z in have if z.get_prefix() == y.get_prefix()][0], "found by prefix")
        ensures(m.get_by_index(len(have)) is None and m.get_by_index(-1) is None, "nothing else is registered")
    for u in uris:
        ensures(any(u == y.get_uri() for y in have) or m.get_by_uri(u) is None, "unknown uris are not found")
    s = g.string()
    ensures(any(s == y.get_name() for y in have) or m.get_by_name(s) is None, "unknown names are not found")
    ensures(any(s == y.get_prefix() for y in have) or m.get_by_prefix(s) is None, "unknown prefixes are not found")
    z = XExtension("z", "z", urlparse("http://e.x/unregistered"))
    ensures(m.get_index(z) == -1, "an unregistered extension has no index")


@lemma("C15")
def extension_equality(n: str, p: str, u: str, n2: str, p2: str, u2: str):
    a, b = XExtension(n, p, urlparse("http://e.x/" + u)), XExtension(n2, p2, urlparse("http://e.x/" + u2))
    ensures(a.get_name() == n and a.get_prefix() == p and str(a) == n, "an extension has the name and prefix it was made with")
    same = a.get_uri() == b.get_uri()
    ensures((a == b) == same and (a != b) == (not same), "extensions are equal exactly when their uris are")
    ensures((not same) or hash(a) == hash(b), "equal extensions have equal hashes")


def of(xs, d=None):
    m = fresh(XExtensionManager)
    m._XExtensionManager__extension_list = xs
    if d is not None:
        m._XExtensionManager__extension_map = d
    return m


@lemma("C15", mode="shape")
def by_name(xs: List[XExtension], n: str):
    x = of(xs).get_by_name(n)
    ensures(x.get_name() == n if x is not None else all(y.get_name() != n for y in xs), "an extension of the name, if there is one")


@lemma("C15", mode="shape")
def by_prefix(xs: List[XExtension], p: str):
    x = of(xs).get_by_prefix(p)
    ensures(x.get_prefix() == p if x is not None else all(y.get_prefix() != p for y in xs), "an extension of the prefix, if there is one")


@lemma("C15", mode="shape")
def by_index(xs: List[XExtension], i: int, x: XExtension):
    m = of(xs)
    ensures(m.get_by_index(i) is (xs[i] if 0 <= i < len(xs) else None), "the extension of the index")
    j = m.get_index(x)
    if j == -1:
        ensures(all(y.get_uri() != x.get_uri() for y in xs), "no index for an unknown uri")
    else:
        ensures(0 <= j < len(xs) and xs[j].get_uri() == x.get_uri(), "the index of a uri")


@lemma("C15", mode="shape")
def by_uri(xs: List[XExtension], d: Map[Key, str], x: XExtension, u: str):
    m = of([], d)
    ensures(m.get_by_uri(u) == d.get(u), "what is registered for the uri")
    m.register(x)
    ensures(m.get_by_uri(x.get_uri()) is x and (x.get_uri() == u or m.get_by_uri(u) == d.get(u)), "one uri is set, every other keeps its own")


@lemma("C15", mode="shape")
def registering(xs: List[XExtension], x: XExtension, i: int):
    m = of(xs)
    n, k = len(xs), m.get_index(x)
    requires(0 <= i < n)
    was = m.get_by_index(i)
    m.register(x)
    ensures(m.get_by_uri(x.get_uri()) is x, "found by uri")
    at = n if k == -1 else k
    ensures(m.get_by_index(at) is x, "a new uri is numbered last, a known one keeps its place")
    ensures(len(xs) == (n + 1 if k == -1 else n) and m.get_by_index(len(xs)) is None, "one more only for a new uri")
    ensures(i == at or m.get_by_index(i) is was, "every other extension keeps its place")
