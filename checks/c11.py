"""Percent-encoding and UTF-8 helpers."""
from common import *

ID = "C11"
CASES = {"pcodec": B.pcodec, "pencode": B.pencode, "udecode": B.udecode}
RULE = ("One evaluation encodes/decodes one string or byte sequence with the public helpers and compares with the model (byte-level percent codec, Encoding Standard UTF-8 decoder, USVString conversion, character-reference fallback) and checks decode(encode(x)) == x. "
        "Workload: every code point, every byte pair, all UTF-8 boundary sequences up to 4 bytes, all %xx forms, safe sets x encodings, lengths, fuzzing. Distinct = distinct (operation, parameters, shape).")
ASSUMPTIONS = [MODEL, "letters, digits and _.-~ are never encoded by string_percent_encode (documented by its examples and urllib.parse.quote)", "stateless codecs only"]
REQUIRED = {"codec": 20000, "pencode": 10000, "utf8_decode": 10000}
SAFES = ["", "/", "/?#", "!$&'()*+,;=", " ", "%", "~", "+", "@:", "".join(chr(i) for i in range(0x20, 0x7F)), "\"<>`{}|^[]\\", "_.-", "&", "=&"]
EDGE = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF]


def work(m):
    import itertools
    g = gen.Gen(m.rng)
    r = m.rng
    for n in (1, 2, 3, 4):
        if n == 4 and not deep(m):
            for t in shard(m, itertools.product(EDGE, repeat=4)):
                if r.random() < 0.2:
                    drive(m, g, "udecode", (bytes(t),))
            continue
        for t in shard(m, itertools.product(EDGE, repeat=n)):
            drive(m, g, "udecode", (bytes(t),))
    for s in shard(m, W.batches(48, 0)):
        drive(m, g, "pcodec", (s,))
        drive(m, g, "pencode", (s, r.choice(SAFES), "utf-8", False))
        drive(m, g, "pencode", (s, r.choice(SAFES), B.LEGACY[len(s) % 7], r.random() < 0.5))
    for o in shard(m, list(range(0x300)) + list(range(0xD7F0, 0xE010))):
        for f in ("%s", "a%sb", "\ud83c%s", "%s\udf08"):
            drive(m, g, "pcodec", (f % chr(o),))
    for o in shard(m, range(0x80)):
        for safe in SAFES:
            for enc in ("utf-8", "windows-1252", "shift_jis"):
                for plus in (False, True):
                    drive(m, g, "pencode", ("x%sy%s\u00e9" % (chr(o), chr(o)), safe, enc, plus))
    for o in shard(m, range(0x80, 0x10000, 1 if deep(m) else 9)):
        if not 0xD800 <= o <= 0xDFFF:
            for e in r.sample(B.LEGACY, 3):
                drive(m, g, "pencode", ("a" + chr(o) + "&#1;" + chr(o ^ 1) if not 0xD800 <= (o ^ 1) <= 0xDFFF else chr(o), r.choice(SAFES), e, r.random() < 0.3))
    for s in gen.enum_strings(["%", "4", "1", "f", "G", "g", "e", "\u00e9", "+"], 6 if deep(m) else 5, m.shard, m.nshard):
        drive(m, g, "pcodec", (s,))
    for a in shard(m, range(256)):
        for b in range(0x20, 0x7F):
            drive(m, g, "pcodec", ("%" + chr(a) + chr(b),))
        drive(m, g, "pcodec", ("%%%02x" % a,))
        drive(m, g, "pcodec", ("%%%02X%%%02x" % (a, 255 - a),))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        for u in ("a", "\u00e9", "%41", "%", " ", "\U0001f308", "\ud83c", "%e2%98%83"):
            s = (u * (n // len(u) + 1))[:n]
            drive(m, g, "pcodec", (s,))
            drive(m, g, "pencode", (s, r.choice(SAFES), r.choice(("utf-8", "windows-1252")), r.random() < 0.3))
            drive(m, g, "udecode", (M.usv(s).encode("utf-8")[: n],))
        # units that straddle a multiple of n characters or bytes
        for u in ("\U0001f308", "\ud83c\udf08", "\ud83c", "\u20ac", "\u00e9", "%e2%82%ac", "%f0%9f%8c%88", "\udf08\ud83c"):
            for d in (1, 2, 3):
                for k in (1, 2):
                    s = ("a" * max(0, k * n - d) + u + "b" * (n % 7))
                    drive(m, g, "pcodec", (s,))
                    drive(m, g, "pencode", (s, r.choice(SAFES), r.choice(("utf-8", "windows-1252", "shift_jis")), r.random() < 0.3))
                    drive(m, g, "udecode", (M.usv(s).encode("utf-8"),))
    for t in shard(m, g.novel_s[:60]):
        for f in (t, "a" + t, t + "b", "%" + t):
            drive(m, g, "pcodec", (f,))
            for safe in SAFES:
                drive(m, g, "pencode", (f, safe, r.choice(("utf-8",) + B.LEGACY), r.random() < 0.3))
    for _ in range(N(m, 30000, 400000)):
        x = r.random()
        if x < 0.4:
            drive(m, g, "pcodec", (g.text() + g.text(0),))
        elif x < 0.8:
            drive(m, g, "pencode", (g.text() + g.text(0), r.choice(SAFES) if r.random() < 0.7 else "".join(chr(r.randrange(0x20, 0x7F)) for _ in range(r.randrange(9))), r.choice(("utf-8", "utf-8") + B.LEGACY), r.random() < 0.3))
        else:
            drive(m, g, "udecode", (bytes(r.choice(EDGE) if r.random() < 0.8 else r.randrange(256) for _ in range(r.randrange(12))),))
