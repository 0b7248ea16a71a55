"""Serialization round trip and canonical form."""
from common import *

ID = "C06"
CASES = {"roundtrip": C.roundtrip, "record": B.record, "history": C.history}
RULE = ("One evaluation parses a string (optionally against a base, or drives a URL through setters), then checks without the model: every published component is canonical, href decomposes exactly into the getters, and reparsing href gives an equal URL with identical components; "
        "or serializes a directly built URLRecord against the model. Distinct = distinct href shape.")
ASSUMPTIONS = ["canonical-form predicates in lib/cases.py:canonical", "histories in which the protocol setter turned the scheme into file are not reparsed (the standard itself does not round-trip file://localhost and drive letters there)"]
REQUIRED = {"roundtrip": 20000, "records": 2000, "history_roundtrips": 2000}


def rand_record(m, g):
    r = m.rng
    sch = r.choice(("http", "https", "file", "foo", "a", "ws", "ftp", "wss", "blob", "data", "x-y"))
    host = r.choice((None, "", "h", "example.com", 0, 1, 2**32 - 1, 0x7F000001, (0,) * 8, (1, 0, 0, 2, 0, 0, 0, 3), (0, 0, 0, 0, 0, 0, 0, 1), (1, 2, 3, 4, 5, 6, 7, 8)))
    path = r.choice(("", "opaque", "a b", "//x")) if r.random() < 0.2 else tuple(r.choice(("", "", "a", "b", "C:", "c|", "..", "x y", "C:")) for _ in range(r.choice((0, 1, 1, 2, 3))))
    return (sch, r.choice(("", "", "u")), r.choice(("", "", "p")), host, r.choice((None, None, 0, 1, 80, 443, 65535)), path,
            r.choice((None, "", "q", "a=1")), r.choice((None, "", "f", "#f")))


def hist(m, g):
    import c07
    r = m.rng

    def op():
        x = r.random()
        if x < 0.45:
            a = r.choice(g.ATTRS)
            return ("set", a, r.choice(c07.VALS[a]))
        return ("params",) + g.paramop() if x < 0.6 else g.setop()
    return (g.grid() if r.random() < 0.6 else g.base(), [op() for _ in range(r.choice((1, 1, 2, 3, 5)))])


def work(m):
    g = gen.Gen(m.rng)
    for s in W.corpus_urls(m, g):
        drive(m, g, "roundtrip", (s,), s)
    for s in W.novel(m, g):
        drive(m, g, "roundtrip", (s,), s)
    for s in shard(m, W.low_points(W.ALL, 0x180)):
        drive(m, g, "roundtrip", (s,), s)
    for s in shard(m, W.abs_strings(4 if deep(m) else 3)):
        if deep(m) or m.rng.random() < 0.5:
            drive(m, g, "roundtrip", (s,))
    for s in W.high_points(m, W.COMPONENT, deep(m)):
        drive(m, g, "roundtrip", (s,))
    for s in W.long_strings(m, g, W.COMPONENT):
        if m.rng.random() < 0.4:
            drive(m, g, "roundtrip", (s,))
    for t in shard(m, W.zero_patterns()):
        drive(m, g, "record", (("http", "", "", t, None, ("",), None, None),))
    for _ in range(N(m, 4000, 40000)):
        drive(m, g, "record", (rand_record(m, g),))
    for _ in range(N(m, 3000, 50000)):
        drive(m, g, "roundtrip", (g.grid(),))
    for _ in range(N(m, 9000, 120000)):
        drive(m, g, "history", hist(m, g))
    for _ in range(N(m, 14000, 250000)):
        if m.rng.random() < 0.5:
            s = g.url()
            drive(m, g, "roundtrip", (s,), s)
        else:
            s = g.ref()
            drive(m, g, "roundtrip", (s, g.base()), s)
