"""URL <-> search_params synchronisation."""
from common import *

ID = "C08"
CASES = {"history": C.history, "attached": B.attached}
RULE = ("One evaluation drives one URL object through a history that mixes search_params mutations, search/href/hash and other assignments, and checks after every step that href, search and the one live search_params object agree with the model; "
        "or does the same for a URLSearchParams attached to a URLRecord. Distinct = distinct (operation, outcome class, URL class, list length).")
ASSUMPTIONS = [MODEL]
REQUIRED = {"histories": 10000, "params_append": 3000, "params_delete": 3000, "params_sort": 1000, "set_search_applied": 1000, "set_href_applied": 500, "attached": 1000, "params_copied": 500}
STARTS = ["http://h/?a=1&b=2&a=3", "http://h/", "http://h/?", "foo:o  ?q#f", "foo:o   ?a", "foo:o  #f", "foo://h?a=~", "file:///x?a=%41+b", "http://h/?%zz&=&&a", "http://h/#f", "data:x ?y", "ws://h/?'=\"", "http://h/?a=%F0%9F%8C%88&%ff", "foo:/p?a b#", "data:   ?a", "foo: #f", "foo:%20 ?a=1#", "data:  ?"]


def op(m, g):
    x = m.rng.random()
    if m.rng.random() < 0.06:
        return ("copy", m.rng.random() < 0.5)
    if x < 0.62:
        return ("params",) + g.paramop()
    if x < 0.84:
        return ("set", "search", g.setval("search"))
    if x < 0.90:
        return ("set", "href", m.rng.choice(STARTS) if m.rng.random() < 0.6 else g.setval("href"))
    if x < 0.95:
        return ("set", "hash", g.setval("hash"))
    return g.setop()


SMALL = [("params", "append", ("a", "1")), ("params", "append", ("b", "~")), ("params", "delete", ("a",)), ("params", "delete", ("q",)), ("params", "delete", ("a", "1")), ("params", "set", ("a", "9")), ("params", "sort", ()),
         ("set", "search", ""), ("set", "search", "?"), ("set", "search", "a=1&c=2"), ("set", "search", "?b"), ("set", "href", "foo:o2  ?z"), ("set", "href", "http://h/"), ("set", "href", "http://"), ("set", "hash", ""), ("set", "hash", "x"), ("set", "protocol", "https"), ("set", "pathname", "/p"), ("copy", False)]


def work(m):
    import itertools
    g = gen.Gen(m.rng)
    for n in (1, 2, 3) if deep(m) else (1, 2):
        for s, ops in shard(m, itertools.product(STARTS, itertools.product(SMALL, repeat=n))):
            drive(m, g, "history", (s, list(ops)))
    for s in shard(m, STARTS * 40):
        drive(m, g, "history", (s, [m.rng.choice(SMALL) for _ in range(12)]))
    for t in shard(m, g.novel_s[:60]):
        for s in STARTS[:6]:
            drive(m, g, "history", (s, [("params", "append", (t, t)), ("params", "set", (t, "1")), ("set", "search", t), ("params", "sort", ()), ("params", "delete", (t,))]))
    for n in shard(m, sorted(set(gen.LENGTHS + g.novel_len))):
        if n <= 2000:
            for s in ("http://h/?" + "&".join("k%d=%d" % (i % 7, i) for i in range(n)), "foo:o  ?" + "a" * n):
                drive(m, g, "history", (s, [("params", "sort", ()), ("params", "delete", ("k1",)), ("params", "set", ("k2", "x")), ("params", "append", ("z", "y" * n)), ("set", "search", "")]))
    for _ in range(N(m, 10000, 200000)):
        s = m.rng.choice(STARTS) if m.rng.random() < 0.5 else g.grid() if m.rng.random() < 0.6 else g.base()
        drive(m, g, "history", (s, [op(m, g) for _ in range(m.rng.choice((1, 2, 3, 5, 8, 14)))]))
    for _ in range(N(m, 1500, 20000)):
        s = m.rng.choice(STARTS) if m.rng.random() < 0.6 else g.base()
        drive(m, g, "attached", (s, [g.paramop() for _ in range(m.rng.choice((1, 2, 3, 5)))]))
