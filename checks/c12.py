"""Encoding override of the query."""
from common import *

ID = "C12"
CASES = {"encq": B.encq}
RULE = ("One evaluation parses a URL or reference with an encoding argument through parse_url, BasicURLParser.parse or urlparse, or rewrites a record's query in place with one, and compares all components with the model. "
        "Workload: schemes x encodings x every code point class in the query, base and reference combinations, fuzzing. Distinct = distinct (API, encoding, scheme class, query shape).")
ASSUMPTIONS = [MODEL, ICU, "Python's stateless codecs stand for the Encoding Standard's encoders; utf-16le/be labels count as UTF-8 as in the standard"]
REQUIRED = {"enc_ok": 20000, "enc_charref": 1000, "enc_legacy_applied": 5000, "enc_utf8": 5000, "enc_override": 5000}
FNS = ("parse_url", "basic", "urlparse")
TEMPL = ["http://h/?%s", "https://h?%s#%s", "file:///x?%s", "ftp://h/?%s", "ws://h/?%s", "wss://h/?%s", "foo://h/?%s", "foo:o?%s", "http://h/%s?%s", "http://%%61/?%s#%s", "HTTP://h/?a=%s&b=%s", "foo:/p?%s#%s", "WS://h/?%s"]
CHARS = ["a", "\u00e9", "\u0416", "\u3042", "\u4e00", "\uac00", "\u20ac", "\u00ff", "\U0001f308", "'", "\"", "#", "&", "&#233;", "~", "+", "%", "%41", " ", "\\", "\u00a5", "\u203e", "\ufffd", "\u0000", "\x7f", "<", "|", "`", "\u0102", "\u05d0", "\u2022", "\ud83c"]


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    encs = B.LEGACY + B.UTF_ALIASES
    i = 0
    for e in encs:
        for t in TEMPL:
            for c in shard(m, CHARS):
                i += 1
                drive(m, g, "encq", (t.replace("%s", c).replace("%%", "%"), None, e, FNS[i % 3]))
            for c in shard(m, CHARS):
                i += 1
                q = "x" + c + r.choice(CHARS) + "y" + c
                drive(m, g, "encq", ("?" + q, t.replace("%s", c).replace("%%", "%"), e, FNS[i % 3]))
    for o in shard(m, range(0x80, 0x10000, 1 if deep(m) else 7)):
        if not 0xD800 <= o <= 0xDFFF:
            i += 1
            drive(m, g, "encq", (r.choice(TEMPL[:5]).replace("%s", chr(o) + "z").replace("%%", "%"), None, r.choice(B.LEGACY), FNS[i % 3]))
    for o in shard(m, range(0x80)):
        for t in TEMPL:
            i += 1
            drive(m, g, "encq", (t.replace("%s", "\u00e9" + chr(o) + "\U0001f308").replace("%%", "%"), None, r.choice(B.LEGACY), FNS[i % 3]))
    for t in shard(m, g.novel_s[:60]):
        for f in TEMPL:
            drive(m, g, "encq", (f.replace("%s", t + "\u00e9").replace("%%", "%"), None, r.choice(encs), r.choice(FNS)))
        drive(m, g, "encq", (t + "://h/?\u00e9\U0001f308", None, r.choice(B.LEGACY), r.choice(FNS)))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        for u in ("a", "\u00e9", "\U0001f308", "'", " "):
            drive(m, g, "encq", (r.choice(TEMPL[:7]).replace("%s", u * n).replace("%%", "%"), None, r.choice(encs), r.choice(FNS)))
    # the same texts again and again with changing encodings
    for _ in range(N(m, 60, 800)):
        few = [(r.choice(TEMPL).replace("%s", r.choice(CHARS)).replace("%%", "%"), None) for _ in range(3)]
        few += [(r.choice(("", "#x", "?\u00e9", "y", "?\u3042")), s) for s, _ in few]
        some = r.sample(encs, 4) + ["utf-8"]
        for _ in range(30):
            s, b = r.choice(few)
            drive(m, g, "encq", (s, b, r.choice(some), r.choice(FNS)))
    for _ in range(N(m, 24000, 400000)):
        x = r.random()
        if x < 0.5:
            s, b = g.url(), None
        elif x < 0.75:
            s, b = "?" + g.query(), g.base()
        else:
            s, b = g.ref(), g.base()
        drive(m, g, "encq", (gen.clean(s), b, r.choice(encs), r.choice(FNS)), s)
    for _ in range(N(m, 4000, 60000)):
        q = g.query() if r.random() < 0.5 else "".join(r.choice(CHARS) for _ in range(r.randrange(1, 5)))
        drive(m, g, "encq", (gen.clean(q), r.choice(W.KEYBASES) if r.random() < 0.5 else g.base(), r.choice(encs), "override"), q)
