"""application/x-www-form-urlencoded."""
from common import *

ID = "C10"
CASES = {"qsl": B.qsl, "uenc": B.uenc}
RULE = ("One evaluation parses one byte string with parse_qsl, or serializes one pair list with urlencode (UTF-8 or a legacy encoding), compares with the model, and checks that the two invert each other. "
        "Workload: all short strings over the syntax alphabet, every byte and every code point in name and value, UTF-8 boundary sequences, lengths, fuzzing. Distinct = distinct (pair count, shape).")
ASSUMPTIONS = [MODEL, "legacy encodings limited to Python's stateless single/multi-byte codecs"]
REQUIRED = {"parse_qsl": 20000, "urlencode": 5000, "urlencode_legacy": 1000}


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    for s in gen.enum_strings(["a", "=", "&", "+", "%", "2", "B", "\xc3", "\xa9", " "], 6 if deep(m) else 5, m.shard, m.nshard):
        drive(m, g, "qsl", (s.encode("latin-1"),))
    for b in shard(m, range(256)):
        for f in (b"%c", b"a%c=%cb", b"=%c", b"%c%c"):
            drive(m, g, "qsl", (f % ((b,) * f.count(b"%c")),))
        for f in ("%%%02x", "%%%02X=%%%02x", "a%%%02x+", "%%%02xx"):
            drive(m, g, "qsl", ((f % ((b,) * f.count("%%"))).encode(),))
        for b2 in range(256):
            drive(m, g, "qsl", (b"%" + bytes((b, b2)) + b"=" + bytes((b2, b)),))
    for s in shard(m, W.batches(64, 0)):
        drive(m, g, "uenc", ([(s, "v" + s), ("n" + s, "")], None))
        drive(m, g, "qsl", ((s + "=" + s).encode("utf-8"),))
    for o in shard(m, range(0x800)):
        drive(m, g, "uenc", ([(chr(o), "a" + chr(o) + "b"), ("x", "")], None))
        drive(m, g, "uenc", ([(chr(o), "a" + chr(o) + "b")], B.LEGACY[o % 14]))
    for t in shard(m, g.novel_s[:60]):
        drive(m, g, "uenc", ([(t, t), ("a" + t, t + "b")], None))
        drive(m, g, "qsl", (M.usv(t + "=" + t + "&a" + t + "b").encode("utf-8"),))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        for u in ("a", "&", "=", "%41", "+", "\u00e9", "a=b&", "%"):
            s = (u * (n // len(u) + 1))[:n]
            drive(m, g, "qsl", (s.encode("utf-8"),))
            drive(m, g, "uenc", ([(s, s)], None))
        drive(m, g, "uenc", ([("k", str(i)) for i in range(min(n, 3000))], None))
    pool = b"ab=&+%2041eE \xc3\xa9\xff\xed\xa0\x80\xf0\x9f\x8c\x88\xe2\x98\xf4\x90;?#"
    for _ in range(N(m, 50000, 600000)):
        x = r.random()
        if x < 0.5:
            drive(m, g, "qsl", (bytes(r.choice(pool) if r.random() < 0.85 else r.randrange(256) for _ in range(r.randrange(0, 24))),))
        elif x < 0.85:
            drive(m, g, "uenc", ([(g.text(0), g.text(0)) for _ in range(r.randrange(0, 5))], None))
        else:
            drive(m, g, "uenc", ([(g.text(0), g.text(0)) for _ in range(r.randrange(0, 3))], r.choice(B.LEGACY)))
