"""urlparse."""
from common import *

ID = "C18"
CASES = {"uparse": B.uparse}
RULE = ("One evaluation calls urlparse (base, encoding, allow_fragments varied) and compares the six ParseResult fields with the model's record, and rebuilds the serialized URL from the fields. "
        "Workload: corpus, all token strings, every code point, lengths, fuzzing with ';' and fragments. Distinct = distinct (allow_fragments, shape, outcome).")
ASSUMPTIONS = [MODEL, ICU, "params is what follows the first ';' of the path; with allow_fragments=False a non-empty fragment is appended to the query, else params, else path"]
REQUIRED = {"urlparse_ok": 10000, "urlparse_fail": 1000, "urlparse_nofragment": 3000, "urlparse_encoding": 3000}
SEMI = ["http://h/a;b/c;d", "http://h/;", "http://h/;;", "http://h/;?;#;", "foo:a;b", "foo:;", "http://h/a?;", "http://h/a#;b", "http://u;v@h/;x", "file:///C:/;a#b", "foo:/a;b#c", "foo://h;p/q;r", "http://h/%3B", "foo:;;#x", "http://h/a;b#", "http://h/a;#c", "http://h/?#c", "http://h/a;b?#c", "http://h/a?b#", "http://h:0/;x"]


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    for s in shard(m, SEMI):
        for f in (None, True, False):
            drive(m, g, "uparse", (s, None, f))
            for b in W.KEYBASES:
                drive(m, g, "uparse", (s[5:], b, f))
    for s in shard(m, ["http://h/;\u00e9?\u00e9\U0001f308#\u00e9", "http://h/\u00e9;\U0001f308?\U0001f308'#\U0001f308", "ws://h/?\u00e9#\u00e9", "foo:\u00e9?\u00e9#\u00e9", "file:?\u00e9", "http://h/?a#\u00e9"]):
        for e in B.LEGACY + B.UTF_ALIASES:
            for f in (None, True, False):
                drive(m, g, "uparse", (s, None, f, e))
                drive(m, g, "uparse", (s[5:], "http://b/?\u00e9#z", f, e))
    for s in shard(m, [p + "".join(t) for p in ("http://h", "http://h/a", "foo:", "foo:/", "file:///C:", "foo://h:1") for t in W.tokens(3, [";", "?", "#", "/", "a", ".", "..", "%3b", "@", ":"])]):
        drive(m, g, "uparse", (s, None, r.choice((None, True, False))))
    i = 0
    for s in shard(m, W.tokens(3, [";", "?", "#", "/", "a", "..", "//", ":"])):
        for b in r.sample(W.KEYBASES, 3):
            drive(m, g, "uparse", (s, b, r.choice((None, True, False))))
    for s in W.corpus_urls(m, g):
        drive(m, g, "uparse", (s, None, None), s)
        drive(m, g, "uparse", (s, r.choice(W.KEYBASES), False), s)
    for s in W.novel(m, g):
        drive(m, g, "uparse", (s, None, r.choice((None, True, False))))
    for s in shard(m, W.low_points(W.ALL, 0x100)):
        i += 1
        drive(m, g, "uparse", (s, None, (None, True, False)[i % 3]))
    for s in W.long_strings(m, g, W.COMPONENT):
        if r.random() < 0.3:
            drive(m, g, "uparse", (s, None, r.choice((None, True, False))))
    for _ in range(N(m, 26000, 400000)):
        s = g.url() if r.random() < 0.6 else g.ref()
        if r.random() < 0.3:
            k = r.randrange(len(s) + 1)
            s = gen.clean(s[:k] + ";" + s[k:])
        e = r.choice(B.LEGACY + B.UTF_ALIASES) if r.random() < 0.3 else None
        drive(m, g, "uparse", (s, None if r.random() < 0.5 else g.base(), r.choice((None, True, False)), e), s)
