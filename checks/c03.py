"""Host parsing."""
from common import *

ID = "C03"
CASES = {"host": C.host, "parse": C.parse}
RULE = ("One evaluation parses one host string as special or opaque host (Host.parse, or inside URLs of special/non-special/file schemes), compares result, type and serialization with the model and reparses the serialization. "
        "Workload: every code point as host content, every percent-encoded byte and byte pair class, WPT hosts, fuzzing. Distinct = distinct (kind of host or failure, validation errors, shape).")
ASSUMPTIONS = [MODEL, ICU]
REQUIRED = {"host_ok": 10000, "host_fail": 5000, "host_kind_str": 5000, "host_kind_int": 100, "host_kind_tuple": 100}
SCH = ("http://%s/", "foo://%s/", "file://%s/", "ws://%s", "https://u@%s:8/", "foo://u:p@%s:80/x", "ftp://%s?q")


def both(m, g, s):
    drive(m, g, "host", (s, False), s)
    drive(m, g, "host", (s, True))


def work(m):
    g = gen.Gen(m.rng)
    for s in shard(m, g.corpus["hosts"]):
        both(m, g, s)
        both(m, g, s.upper())
        both(m, g, "".join("%%%02X" % b for b in M.usv(s).encode("utf-8")))
    for t in shard(m, g.novel_s[:60]):
        for f in (t, "a" + t, t + "a", t + ".com", "a." + t, t.upper(), t + ".", "." + t, "%" + t, "[" + t + "]", "[::" + t + "]", "1." + t):
            both(m, g, f)
            for k in SCH:
                drive(m, g, "parse", (k % f,))
    for ip in shard(m, W.IP6SAMPLES):
        for f in W.bracketed(ip):
            both(m, g, f)
            for k in SCH:
                drive(m, g, "parse", (k % f,))
    for n in shard(m, g.novel_len + gen.LENGTHS + gen.BIGLEN[:8]):
        for u in ("a", "\u00e9", "1", "a.", "-", "%61", "xn--a", "\u05d0", "0"):
            s = (u * (n // len(u) + 1))[:n]
            for f in (s, s + ".com", "x." + s + ".y", s + "!"):
                both(m, g, f)
                drive(m, g, "parse", ("http://" + f + "/",))
    top = 0x110000 if deep(m) else 0x10000
    for o in shard(m, range(top)):
        if 0xD800 <= o <= 0xDFFF:
            continue
        c = chr(o)
        drive(m, g, "host", ("a" + c + "b", False))
        if o < 0x3000 or o % 7 == 0 or deep(m):
            drive(m, g, "host", (c, False))
            drive(m, g, "host", (c + "a", True))
    if not deep(m):
        for _ in range(2500):
            drive(m, g, "host", (m.rng.choice(("", "a")) + chr(m.rng.randrange(0x10000, 0x110000)), m.rng.random() < 0.2))
    for b in shard(m, range(256)):
        for f in ("%%%02x", "a%%%02X.b", "%%%02xa", "a%%%02x", "x%%%02x%%%02x"):
            s = f % ((b,) * f.count("%%"))
            both(m, g, s)
            for k in SCH:
                drive(m, g, "parse", (k % s,))
        for b2 in range(0, 256, 5):
            both(m, g, "%%%02x%%%02x" % (b, b2))
    # a non-ASCII or escaped separator does what its ASCII equivalent does
    for s in shard(m, W.tokens(3, ["a", ".", "\u3002", "%2e", "1", "[", "]", ":", "%", "@", "-", "\u00ad", "0x"])):
        both(m, g, s)
        drive(m, g, "parse", (m.rng.choice(SCH) % s,))
    for _ in range(N(m, 40000, 500000)):
        s = g.host() if m.rng.random() < 0.8 else g.text()
        if m.rng.random() < 0.15:
            drive(m, g, "parse", (gen.clean(m.rng.choice(SCH) % s),))
        else:
            drive(m, g, "host", (s, m.rng.random() < 0.35), s)
