"""Origin and equality."""
from common import *

ID = "C15"
CASES = {"origin": B.origin, "equal_live": B.equal_live}
RULE = ("One evaluation parses two URLs and checks origin (fields and text), same-origin and same-origin-domain relations, and ==, != and equals() with and without fragments, in both directions, against the model; or lets two URLs and two records change (assignments, parameters, fields set directly) and checks the same after every step. Equal values, if hashable, must have equal hashes. "
        "Workload: each URL paired with an equivalent spelling, with variants differing in exactly one component, with its blob: form and with unrelated URLs. Distinct = distinct (relation, shapes).")
ASSUMPTIONS = [MODEL, ICU]
REQUIRED = {"live_equal": 3000, "live_different": 3000, "pair_equal": 2000, "pair_equal_but_fragment": 500, "pair_different": 2000, "same_origin": 2000, "cross_origin": 500, "origin_opaque": 1000, "origin_blob": 300}
GROUPS = [
    ["http://h/", "HTTP://H:80/", "http://h", "http://h/.", "http:\\\\h\\", "http://h/#", "http://h/?", "http://h/#f", "http://h/?#f", "https://h/", "http://h:81/", "http://h./", "http://u@h/", "http://:p@h/", "http://h/a", "http://g/", "ws://h/", "http://h/%61", "http://h//", "http://h:0/"],
    ["http://1.2.3.4/", "http://0x1020304", "http://16909060/", "http://1.2.772", "http://1.2.3.5", "http://[::1.2.3.4]/", "http://[::102:304]/", "https://1.2.3.4/"],
    ["file:///a", "file:/a", "file://localhost/a", "file:///a#x", "file:///A", "file:///C|/a", "file:///C:/a", "file://h/a", "file:a"],
    ["foo:a", "foo:a#", "foo:a?", "FOO:a", "foo:/a", "foo://a", "foo:///a", "foo://a/", "foo://A/", "foo:/.//a", "foo:a#b", "foo:A"],
    ["blob:https://h/x", "blob:https://h:443/y", "blob:http://h/x", "blob:ws://h/", "blob:ftp://h/", "blob:file:///x", "blob:blob:https://h/", "blob:", "blob:x", "blob:/x", "blob://h/x", "blob:https://h:1/", "BLOB:HTTPS://H/", "blob:https://", "blob: https://h/", "https://h/", "blob:https://h/#a", "blob:data:x"],
    ["http://[::1]/", "http://[0:0::1]/", "http://[1::]/", "http://[::1]:80/", "https://[::1]/", "http://[::1]:81/"],
    ["ftp://h/", "ftp://h:21/", "wss://h:443/", "wss://h/", "ws://h:80/", "ws://h:443/", "ftp://h:80", "data:x", "about:blank", "javascript:1", "mailto:x"],
    ["http://h/?a=1&b=2", "http://h/?b=2&a=1", "http://h/?a=1&b=2#x", "http://h/?a=1&b=%32", "http://h/?A=1&b=2"],
]


def variants(m, g, s):
    r = m.rng
    x = r.random()
    if x < 0.15:
        return s
    if x < 0.35:
        return s.split("#")[0] + "#" + g.text(0)
    if x < 0.5:
        return g.mutate(s)
    if x < 0.6:
        rec = C.model(M.parse_url, s)
        return rec[1].ser() if rec[0] == "ok" else s
    if x < 0.7:
        return s.upper()
    if x < 0.8:
        for a, b in (("http:", "https:"), ("https:", "http:"), ("foo:", "bar:"), ("ws:", "wss:")):
            if s.startswith(a):
                return b + s[len(a):]
        return " " + s
    if x < 0.9:
        return g.base()
    return "blob:" + s


FIELDS = [("fragment", None), ("fragment", ""), ("fragment", "f"), ("query", None), ("query", ""), ("query", "a=1"), ("path", [""]), ("path", ["a"]), ("path", ["", "b"]), ("path", ["a", ""]), ("username", ""), ("username", "u"),
          ("password", ""), ("password", "p"), ("port", None), ("port", 0), ("port", 81), ("scheme", "https"), ("scheme", "foo"), ("scheme", "http"), ("host", "g"), ("host", 16909060), ("host", ""), ("host", None)]


def live(m, g):
    r = m.rng
    ops = []
    for _ in range(r.randrange(1, 6)):
        x = r.random()
        o = ("field",) + r.choice(FIELDS) if x < 0.4 else g.setop() if x < 0.8 else ("params",) + g.paramop()
        w = r.randrange(2)
        ops.append((w, o))
        if r.random() < 0.65:
            ops.append((1 - w, o))
    return ops


def parsable(m, g):
    while True:
        s = g.base()
        if r_ok(s):
            return s


def r_ok(s):
    return C.model(M.parse_url, s)[0] == "ok"


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    for a, b in shard(m, [(a, b) for G in GROUPS for a in G for b in G]):
        drive(m, g, "origin", (a, b))
    flat = [a for G in GROUPS for a in G]
    for a in shard(m, flat):
        for b in r.sample(flat, 25):
            drive(m, g, "origin", (a, b))
    for s in shard(m, g.corpus["urls"]):
        drive(m, g, "origin", (s, gen.clean(variants(m, g, s))))
    for s in W.novel(m, g):
        drive(m, g, "origin", (s, gen.clean(variants(m, g, s))))
        drive(m, g, "origin", ("blob:" + s, s))
    for p in shard(m, list(range(0, 65536, 61)) + [80, 443, 21, 8080] + [x for x in g.novel_num if x < 65536]):
        a = r.choice(("http", "https", "ws", "wss", "ftp", "foo")) + "://h:%d/" % p
        drive(m, g, "origin", (a, r.choice((a, a.replace("h:", "H:"), a.replace(":%d/" % p, "/"), a.replace(":%d/" % p, ":%d/" % (p ^ 1)), "blob:" + a, a + "x#y"))))
    # texts that agree up to a length and differ behind it
    for n in shard(m, sorted(set(gen.LENGTHS + [x for x in gen.BIGLEN + g.novel_len if x < 5000]))):
        for t in ("http://h/%s", "foo:%s", "http://h/?%s", "http://h/#%s", "http://%s@h/", "http://u:%s@h/", "foo://%s/", "blob:http://h/%s", "blob:http://h:1/x#%s"):
            a = t % ("a" * n)
            for b in (t % ("a" * n + "b"), t % ("a" * (n - 1) + "b") if n else t % "b", a, t % ("A" * n), t % ("b" + "a" * n)):
                drive(m, g, "origin", (a, b))
        if n <= 63:
            a = "http://%s.com/" % ("a" * max(n, 1))
            drive(m, g, "origin", (a, a.replace(".com", "b.com")))
            drive(m, g, "origin", (a, "blob:" + a.upper()))
    for _ in range(N(m, 1200, 60000)):
        s = parsable(m, g)
        t = s if r.random() < 0.6 else gen.clean(variants(m, g, s))
        drive(m, g, "equal_live", (s, t if r_ok(t) else s, live(m, g)))
    for _ in range(N(m, 13000, 250000)):
        x = r.random()
        s = r.choice((g.absolute, g.base, g.absolute))()
        if x < 0.12:
            s = "blob:" + s
        drive(m, g, "origin", (gen.clean(s), gen.clean(variants(m, g, s))), s)
