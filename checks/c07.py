"""Setters."""
from common import *

ID = "C07"
CASES = {"history": C.history}
RULE = ("One evaluation drives one URL object through a history of attribute assignments (and some search_params calls) and compares all getters, href and search_params with the model after every step. "
        "Workload: WPT setter data, every attribute x every base x hostile value tokens, every ASCII code point in every attribute, random histories. Distinct = distinct (attribute, rejected/ignored/applied, value shape, URL class).")
ASSUMPTIONS = [MODEL, ICU, "a value the standard rejects may raise URLParseError or be ignored silently; either way the state must be the standard's"]
REQUIRED = {"histories": 10000, **{"set_%s_applied" % a: 200 for a in gen.Gen.ATTRS}, "set_port_rejected": 100, "set_host_rejected": 100, "set_href_rejected": 100}
VALS = {
    "href": ["http://x/", "foo:bar", "", "//x", "http://", "file:///C|/x", "http://x:99999/", "x"],
    "protocol": ["http", "https:", "ws", "file", "foo", "FTP:", "", "1a", "a\t:", "wss://x", "h\u00e9", "data", "https\x00", "file:x"],
    "username": ["", "u", "a:b@/", "\u00e9", "%40", "\x00\t"],
    "password": ["", "p", "a:b@/?#", "\u00e9", "%40", " "],
    "host": ["", "x", "x:81", "x:", ":80", "x:80", "x:443", "x:99999", "[::1]:8", "[::1", "1.2", "256.1.1.1.1", "x/y:9", "x?y", "x\\y:9", "a b", "x:8a", "@x", "u@x", "localhost", "x:0", "x:065535", "C|", "%41", "\u00e9", "x\ty", "#", "/", "?", "x:8/9", "[::1]:", "[::1]a"],
    "hostname": ["", "x", "x:81", ":80", "[::1]", "[::1]:8", "1.2", "x/y", "a b", "localhost", "LOCALHOST", "x?y", "x\\y", "%", "\u00e9", "..", "#", "[", "a]", "a:b", "C:"],
    "port": ["", "80", "443", "0", "00", "65535", "65536", "8a", "a8", " 8", "8/", "8\\", "-1", "\t9", "9\n9", "0000000080", "21", "4x", "?", "1e5", "\uff18", "99999x", "+8"],
    "pathname": ["", "/", "a", "//x", "/../..", "a?b#c", "C|/x", "/C|/../..", "\\a", "\u00e9", "%2e%2E/x", "/.//p", "..", ".", "///", " a ", "a\tb"],
    "search": ["", "?", "??", "a=1", "?a=1&b=%20", "#x", "'", "\u00e9", "? ", "\t", "?a#b", "&&"],
    "hash": ["", "#", "##", "x", "#\u00e9", "`", " ", "\t", "#a b"],
}


def rand_hist(m, g):
    ops = []
    for _ in range(m.rng.choice((1, 1, 2, 3, 4, 6, 9))):
        ops.append(g.setop() if m.rng.random() < 0.88 else ("params",) + g.paramop())
    return (g.base(), ops)


def work(m):
    g = gen.Gen(m.rng)
    for a, h, v in shard(m, g.corpus["setters"]):
        drive(m, g, "history", (h, [("set", a, v)]))
        drive(m, g, "history", (h, [("set", a, v), ("set", a, v)]))
    jobs = [(b, a, v) for b in gen.Gen.BASES for a in g.ATTRS for v in VALS[a]]
    for b, a, v in shard(m, jobs):
        drive(m, g, "history", (b, [("set", a, v)]))
    for b, a, v in shard(m, [(b, a, "%s%s%s" % (p, chr(o), q)) for b in ("http://u:p@h:81/a?b#c", "foo://h/a", "foo:/x", "file://h/C:/a", "foo:o", "ws://[::1]/") for a in g.ATTRS for o in range(0x81) for p, q in (("", ""), ("8", "9"))]):
        drive(m, g, "history", (b, [("set", a, v)]))
    # ordered pairs of assignments
    for b in ("http://h/", "http://u:p@h:81/a?b#c", "foo://h:0/", "file:///C:/x", "foo:/p", "foo:o  ?q#f", "file://h/x", "foo:///x", "ws://h:443/"):
        for a1 in g.ATTRS:
            for v1 in m.rng.sample(VALS[a1], min(len(VALS[a1]), 40 if deep(m) else 5)):
                for a2 in g.ATTRS:
                    for v2 in m.rng.sample(VALS[a2], min(len(VALS[a2]), 40 if deep(m) else 1)):
                        drive(m, g, "history", (b, [("set", a1, v1), ("set", a2, v2)]))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        for a in g.ATTRS:
            for u in ("a", "\u00e9", "0", "/"):
                drive(m, g, "history", (m.rng.choice(gen.Gen.BASES), [("set", a, u * n), ("set", a, "")]))
    for t in shard(m, g.novel_s[:60] + [str(x) for x in g.novel_num]):
        for a in g.ATTRS:
            for b in ("http://u:p@h:81/a?b#c", "foo://h/a", "foo:/x", "file://h/C:/a", "foo:o", "file:///"):
                for f in (t, "a" + t, t + "a"):
                    drive(m, g, "history", (b, [("set", a, f)]))
        for b in ("http://h/" + t, "foo:" + t, "foo://h/?" + t, t + "://h/x", "http://" + t + "/", "file:///" + t, "http://h/#" + t, "http://u" + t + ":p@h/"):
            if C.model(M.parse_url, b)[0] == "ok":
                for a in g.ATTRS:
                    drive(m, g, "history", (b, [("set", a, m.rng.choice(VALS[a]))]))
    # every attribute on structured start states, then a second assignment
    for _ in range(N(m, 700, 12000)):
        b = g.grid()
        for a in g.ATTRS:
            a2 = m.rng.choice(g.ATTRS)
            drive(m, g, "history", (b, [("set", a, m.rng.choice(VALS[a])), ("set", a2, m.rng.choice(VALS[a2])), ("set", a, m.rng.choice(VALS[a]))]))
    for _ in range(N(m, 13000, 250000)):
        drive(m, g, "history", rand_hist(m, g))
