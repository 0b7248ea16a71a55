"""Relative reference resolution conforms to the standard."""
from common import *

ID = "C02"
CASES = {"resolve": C.resolve, "resolve_live": C.resolve_live}
RULE = ("One evaluation resolves one reference against one base (base given as text, URLRecord or URL object), or up to a dozen references against one URL object that goes through setter and parameter changes meanwhile, and compares all components with the model. "
        "Workload: WPT pairs, all token sequences up to a length against representative bases, all bases x short references, fuzzing. "
        "Distinct = distinct (model state path, outcome, reference shape, base shape).")
ASSUMPTIONS = [MODEL, ICU, "inputs are str; surrogates next to tab/newline excluded"]
REQUIRED = {"resolve_ok": 10000, "resolve_fail": 1000, "live_ok": 5000, "live_fail": 200}
MODES = ("str", "rec", "url", "ustr")

# bases that setters can bring into states no text parses to, and changes that do so
LIVE = ("http://h/C|/a/b", "http://h/C:/a/b", "https://u:p@h:8/C|", "http://h/a//b?q#f", "file:///C:/a/b", "file://h/C|/a", "file://h/a/b", "file:///", "http://h", "ws://h:81/x/C|/y", "foo://h/C|/a", "foo:///a/b", "foo:/a/b",
        "foo:/.//a/b", "foo:a b?q#f", "foo:a  #f", "foo:a  ?q", "foo://u:p@h:1/a", "foo:", "ftp://h/d/e/..", "http://1.2.3.4/a", "http://[::1]:8/", "blob:http://h/x", "http://h/%43%7C/a", "foo://h", "javascript:x")
CHANGES = tuple([("set", a, v)] for a, v in (
    ("protocol", "file"), ("protocol", "http"), ("protocol", "ftp:"), ("protocol", "bar"), ("pathname", "C|/x/y"), ("pathname", "/D:/.."), ("pathname", "//a//b"), ("pathname", ""), ("pathname", "/a/b/c"), ("host", "g:9"),
    ("hostname", ""), ("hostname", "g"), ("port", ""), ("port", "21"), ("username", "v"), ("password", ""), ("search", ""), ("search", "?"), ("search", "x=1"), ("hash", ""), ("hash", "#"), ("hash", "y"), ("href", "foo:b c  "), ("href", "file:///E|/z"))) + (
    [("set", "protocol", "file"), ("set", "hostname", "")], [("set", "protocol", "file"), ("set", "pathname", "/C|/..")], [("set", "hostname", ""), ("set", "pathname", "//x")], [("set", "search", ""), ("set", "hash", "")],
    [("params", "append", ("k", "v"))], [("params", "delete", ("q",))], [("set", "pathname", "/C|/a/b"), ("set", "protocol", "file")], [("set", "protocol", "http"), ("set", "pathname", "/C|/q"), ("set", "protocol", "file:")])
LIVEREF = ["/x", "", "x", "..", "?y", "#z", "//k", "/", "C|/w", "./..", "file:x", "http:x", "\\v"]


def change(m, g):
    r = m.rng
    if r.random() < 0.35:
        return r.choice(r.choice(CHANGES))
    return g.setop() if r.random() < 0.8 else ("params",) + g.paramop()


def work(m):
    g = gen.Gen(m.rng)
    i = 0
    cb = g.corpus["bases"]
    for s in shard(m, g.corpus["urls"]):
        for b in m.rng.sample(cb, 6):
            i += 1
            drive(m, g, "resolve", (s, b, MODES[i % 4]), s)
    for s in W.novel(m, g, {"p": "%s", "pp": "/%s", "h": "//%s", "q": "?%s", "f": "#%s", "u": "//%s@h", "d": "../%s"}):
        for b in m.rng.sample(W.KEYBASES, 3):
            i += 1
            drive(m, g, "resolve", (s, b, MODES[i % 4]), s)
    for t in g.novel_s[:40]:
        for b in ("http://h/" + t, "file:///" + t + "/x", "foo://h/" + t + "/y?" + t, "foo:" + t, t + "://h/a/b", t + ":x", "file:///C:/" + t, "http://" + t + "/a", "foo:/a/" + t):
            for s in ("", "x", "../x", "/x", "?x", "#x", "//y", ".", "..", t, "C|/x", "file:x", "http:x"):
                i += 1
                drive(m, g, "resolve", (s, b, MODES[i % 4]))
    for s in shard(m, W.tokens(2, W.REFTOK)):
        for b in gen.Gen.BASES:
            i += 1
            drive(m, g, "resolve", (s, b, MODES[i % 4]), s)
    for s in shard(m, W.tokens(4 if deep(m) else 3, W.REFTOK)):
        for b in W.KEYBASES if deep(m) else m.rng.sample(W.KEYBASES, 3):
            i += 1
            drive(m, g, "resolve", (s, b, MODES[i % 4]))
    for s in shard(m, W.low_points({"p": "%s", "s": "/%s", "h": "//%s", "q": "?%s", "f": "#%s", "x": "a/../%s"}, 0x120)):
        i += 1
        drive(m, g, "resolve", (s, m.rng.choice(W.KEYBASES), MODES[i % 4]))
    for n in sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len)):
        if n % m.nshard != m.shard:
            continue
        for s in ("../" * n, "a/" * n + "..", "a" * n, "?" + "a" * n, "/" + "a/" * n, "../" * n + "x"):
            for b in ("http://h/" + "b/" * min(n, 600) + "c", "file:///C:/" + "b/" * min(n, 600), "foo://h/" + "b" * n + "/c"):
                i += 1
                drive(m, g, "resolve", (s, b, MODES[i % 4]))
    short = ["", "x", "/x", "//", "//y", "///z", "?", "?x", "#", "#x", "?x#", ".", "..", "../..", "./", "a/..", "\\x", "\\\\y", "C|", "C|/", "C:/x", "/C|/x", "//C|/x", "file:", "file:x", "file:/x", "file:?", "file:#", "http:", "http:x", "https:?x", "ws:#", "wss:..", "ftp:/x", "foo:", "foo:x", "foo:?", "|", "/..", "/.//x", " ", "\t#", "@", ":", "a:b@c"]
    for _ in range(N(m, 220, 3000)):
        b = g.grid()
        for s in short:
            i += 1
            drive(m, g, "resolve", (s, b, MODES[i % 4]))
    for b in shard(m, LIVE):
        for o in CHANGES:
            drive(m, g, "resolve_live", (b, o, LIVEREF))
    for _ in range(N(m, 1200, 20000)):
        b = m.rng.choice(LIVE) if m.rng.random() < 0.4 else g.base()
        o = [change(m, g) for _ in range(m.rng.randrange(1, 5))]
        drive(m, g, "resolve_live", (b, o, [g.ref()] + m.rng.sample(short, 3)))
    for s, b in W.run_pairs(m, g, 1 if deep(m) else 0.25):
        i += 1
        drive(m, g, "resolve", (s, b, MODES[i % 4]))
    for _ in range(N(m, 20000, 400000)):
        s = g.ref()
        drive(m, g, "resolve", (s, g.base(), m.rng.choice(MODES)), s)
