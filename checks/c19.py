"""In-place rewriting with a state override."""
from common import *

ID = "C19"
CASES = {"override": B.override}
RULE = ("One evaluation rewrites one URLRecord in place through a sequence of BasicURLParser.parse(text, url=record, state_override=...) calls and compares the record with the model after each. "
        "Workload: WPT setter values, every override state x base x hostile value, every ASCII code point, random sequences. Distinct = distinct (state, outcome, value shape, URL class).")
ASSUMPTIONS = [MODEL, ICU, "the caller prepares the record as the standard's API does (empties path/query/fragment first, no host/port rewrite of records that cannot have them)"]
REQUIRED = {"override_%s_ok" % s.replace(" ", "_"): 200 for s in B.STATES}
ATTR = {"authority": "host", "scheme start": "protocol", "host": "host", "hostname": "hostname", "port": "port", "path start": "pathname", "query": "search", "fragment": "hash"}


def work(m):
    import c07
    g = gen.Gen(m.rng)
    r = m.rng

    def val(st):
        v = g.setval(ATTR[st])
        if st == "authority" and r.random() < 0.5:
            v = g.userinfo() + v
        return gen.clean(v)
    for a, h, v in shard(m, g.corpus["setters"]):
        for st in B.STATES:
            if ATTR[st] == a:
                drive(m, g, "override", (h, [(st, v)]))
    for b, st, v in shard(m, [(b, st, v) for b in gen.Gen.BASES for st in B.STATES for v in c07.VALS[ATTR[st]]]):
        drive(m, g, "override", (b, [(st, v)]))
        if st == "authority":
            drive(m, g, "override", (b, [(st, "u:p@" + v)]))
    for b, st, v in shard(m, [(b, st, p + chr(o) + q) for b in ("http://u:p@h:81/a?b#c", "foo://h/a", "foo:/x", "file://h/C:/a", "foo:o") for st in B.STATES for o in range(0x81) for p, q in (("", ""), ("8", "9:"))]):
        drive(m, g, "override", (b, [(st, v)]))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        for st in B.STATES:
            for u in ("a", "\u00e9", "0"):
                drive(m, g, "override", (r.choice(gen.Gen.BASES), [(st, u * n)]))
    for t in shard(m, g.novel_s[:60] + [str(x) for x in g.novel_num]):
        for st in B.STATES:
            for b in ("http://u:p@h:81/a?b#c", "foo://h/a", "file://h/C:/a", "foo:o"):
                for f in (t, "a" + t, t + ":", t + "a"):
                    drive(m, g, "override", (b, [(st, f)]))
    for _ in range(N(m, 22000, 400000)):
        sts = r.choices(list(B.STATES), k=r.choice((1, 2, 3, 5)))
        drive(m, g, "override", (g.base(), [(st, val(st)) for st in sts]))
