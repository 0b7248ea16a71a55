"""Copying, pickling and printing."""
from common import *
import c14

ID = "C21"
CASES = {"faithful": B.faithful, "faithful_params": B.faithful_params, "faithful_validity": B.faithful_validity}
RULE = ("One evaluation takes a URL (or search parameters, or a validity state and the error raised) through a history, copies it by deepcopy and by every pickle protocol from 2, compares copy and original, takes the copy through more operations next to a twin built by the same history, "
        "checks that neither disturbs the other and that URL and parameters stay linked, and evaluates repr() back. Distinct = distinct (history length, operations, URL class, error list).")
ASSUMPTIONS = ["copy.copy of URL and URLSearchParams (shallow) is not covered", "IDNAError carries an ICU object and is not covered"]
REQUIRED = {"copies": 5000, "record_copies": 5000, "params_copies": 5000, "validity_copies": 5000, "error_copies": 1000, "reprs": 5000}


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    for s in shard(m, g.corpus["urls"]):
        if W.M_ok(s):
            drive(m, g, "faithful", (s, [], c14.hist(m, g, 2)), s)
        if not gen.SURR_RE.search(s):
            drive(m, g, "faithful_validity", (s, r.choice(("http://a b", "http://h/", "%", "foo:%"))))
    for s in shard(m, W.tokens(2)):
        if W.M_ok(s):
            drive(m, g, "faithful", (s, [], c14.hist(m, g, 1)))
        drive(m, g, "faithful_validity", (s, "http://u:p@h/"))
    for b in shard(m, [b for b in gen.Gen.BASES if W.M_ok(b)]):
        for a in gen.Gen.ATTRS:
            for _ in range(4):
                drive(m, g, "faithful", (b, [("set", a, g.setval(a))], c14.hist(m, g, 2)))
    for s in W.novel(m, g):
        if W.M_ok(s):
            drive(m, g, "faithful", (s, [], c14.hist(m, g, 1)))
    for _ in range(N(m, 1000, 40000)):
        drive(m, g, "faithful", (c14.okbase(m, g), c14.hist(m, g, r.choice((0, 1, 3, 6))), c14.hist(m, g, r.choice((1, 2, 4)))))
    for _ in range(N(m, 1500, 60000)):
        kind = r.choice(("none", "str", "list", "tuple", "lists", "dict", "params"))
        init = g.query() if kind in ("str", "params") else [(g.name(), g.number() if r.random() < 0.2 else g.value()) for _ in range(r.randrange(0, 6))]
        drive(m, g, "faithful_params", (kind, init, [g.paramop() for _ in range(r.randrange(1, 6))]))
    for _ in range(N(m, 1500, 60000)):
        drive(m, g, "faithful_validity", (nosurr(g.url)[:400], nosurr(g.url)[:200]))
