"""Failures name their cause."""
from common import *

ID = "C22"
CASES = {"cause": B.cause}
RULE = ("One evaluation makes a failing call through every entry point that takes the input (parse_url with and without validity, URL, urlparse, BasicURLParser.parse, Host.parse, address and domain parsers, attribute assignment) and checks the class of each raised error against the part of the input the model says failed, and the error types left in the validity state against the model's. "
        "Workload: WPT failures, defective parts planted in otherwise good URLs, hosts and addresses, every code point in hosts, token sequences, fuzzing. Distinct = distinct (entry point, cause, last errors, shape).")
ASSUMPTIONS = [MODEL, ICU, "scalar value strings only", "which of several defects of one IPv6 address is named is not compared", "repeated invalid-URL-unit reports after a drive-letter host are not compared", "an assignment may reject silently"]
REQUIRED = {"cause_" + k: n for k, n in {
    "missing-scheme-non-relative-URL": 500, "host-missing": 300, "port-out-of-range": 200, "port-invalid": 200, "invalid-credentials": 50, "domain-to-ASCII": 300, "domain-invalid-code-point": 300, "host-invalid-code-point": 200,
    "IPv4-too-many-parts": 100, "IPv4-non-numeric-part": 100, "IPv4-out-of-range-part": 100, "IPv6-unclosed": 50, "IPv6-invalid-compression": 20, "IPv6-too-many-pieces": 20, "IPv6-multiple-compression": 20,
    "IPv6-invalid-code-point": 50, "IPv6-too-few-pieces": 50, "IPv4-in-IPv6-too-many-pieces": 10, "IPv4-in-IPv6-invalid-code-point": 20, "IPv4-in-IPv6-out-of-range-part": 10, "IPv4-in-IPv6-too-few-parts": 10}.items()}
ENCS = ("utf-8", "utf-8", "utf-8", "windows-1252", "shift_jis")
BADHOST = ["", "a b", "a<b", "a%41%00", "%zz", "a^b", "xn--", "xn--a", "xn--a\u00e4", "\u00ad", "\ufdd0", "a\u200db", "1.2.3.4.5", "1.2.3.256", "256", "256.1.1.1", "1.256.1", "0xg", "08", "1.2.3.08", "4294967296", "0x100000000", "1..1", "a.1", "a.0x", "1.a.2", "%31.%32.3.4.5",
           "[", "[]", "[:]", "[1]", "[::", "[:1::]", "[1:2:3:4:5:6:7:8:9]", "[1::2::3]", "[g::]", "[1:2]", "[1:2:3:4:5:6:7:1.2.3.4]", "[::1.2.3]", "[::1.2.3.256]", "[::1.2.3.]", "[::01.2.3.4]", "[::1.2.3.4.5]", "[::1]x", "x[::1]", "]", "[::1", "[1:2:3:4:5:6:7:8", "[::%31]",
           "a|b", "a\x7f", "a\x01", "\u212a|", "\u3002", "..", ".", "a..b", "\uff10x", "\uff11\uff0e\uff12.3.4.5", "-", "a_b c"]
BADPORT = ["65536", "99999", "000065536", "9" * 30, "a", "8a", "-1", "+1", " 1", "1 ", "8:9", "\u0661", "0x50"]


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    i = 0
    for s in shard(m, g.corpus["urls"]):
        if gen.SURR_RE.search(s):
            continue
        drive(m, g, "cause", ("url", (s, None, ENCS[i % 5])), s)
        b = r.choice(g.corpus["bases"])
        if not gen.SURR_RE.search(b):
            drive(m, g, "cause", ("url", (s, b, ENCS[i % 5])), s)
        i += 1
    for a, h, v in shard(m, g.corpus["setters"]):
        if W.M_ok(h) and not gen.SURR_RE.search(h + v):
            drive(m, g, "cause", ("set", (h, a, v)))
    frames = ["http://%s/", "https://u:p@%s:8/x?q#f", "foo://%s", "file://%s/x", "//%s", "ws:%s", "http:\\\\%s", "foo://u@%s:1", "file:\\\\%s", "http://u:p:w@@%s/ `"]
    bad = BADHOST + g.novel_s[:30]
    for h in shard(m, bad):
        h = gen.SURR_RE.sub("x", h)
        for f in frames:
            for b in (None, "http://b/c", "foo://b", "file:///C:/x", "foo:o", "http://a b", f % h, "//" + h):
                i += 1
                drive(m, g, "cause", ("url", (f % h, b, ENCS[i % 5])))
                drive(m, g, "cause", ("url", (r.choice(("", "x", "?q", "/p", "http:x")), f % h, ENCS[i % 5])))
        for b in gen.Gen.BASES:
            for a in ("host", "hostname", "href"):
                if W.M_ok(b):
                    drive(m, g, "cause", ("set", (b, a, h if a != "href" else "http://" + h)))
        for o in (False, True):
            drive(m, g, "cause", ("host", (h, o)))
            drive(m, g, "cause", ("ascii", (h, o)))
        t = h.strip("[]")
        drive(m, g, "cause", ("ipv6", (t,)))
        if M.ends_in_number(h):
            drive(m, g, "cause", ("ipv4", (h,)))
    for p in shard(m, BADPORT):
        for f in ("http://h:%s/", "foo://h:%s", "file://h:%s/", "http://u:p@h:%s", "//h:%s", "ws://[::1]:%s?q", "http://1.2.3.256:%s", "http://:%s", "foo://:%s", "http://@:%s", "http://u@:%s"):
            for b in (None, "http://b/c", "foo:o"):
                drive(m, g, "cause", ("url", (f % p, b, "utf-8")))
        for b in gen.Gen.BASES:
            if W.M_ok(b):
                for a in ("port", "host"):
                    drive(m, g, "cause", ("set", (b, a, p if a == "port" else "h:" + p)))
    for s in ("http://", "http:", "https:///", "ws://?x", "foo://@", "foo://u@", "http://@/", "http://u:p@", "http://u:p@/x", "http://@h", "ftp://:8", "file://h:8/", "file://u@h/", "", "x", "/x", "//x", "1:", ":x", "+:", "a b:c", "http", "http//h", "\u00e9:", "?q", "#f", "x:y@z"):
        if i % m.nshard == m.shard:
            for b in (None, "foo:o", "foo:o?q#f", "http://b", "foo:/x", "file:", "blob:http://x", "", "//b", "http://"):
                drive(m, g, "cause", ("url", (s, b, "utf-8")))
        i += 1
    for o in shard(m, list(range(0x300)) + list(range(0x2000, 0x2100)) + list(range(0x3000, 0x3100)) + list(range(0xfe00, 0x10000)) + list(range(0x300, 0x110000, 89 if deep(m) else 1511))):
        if 0xD800 <= o < 0xE000:
            continue
        c = chr(o)
        for t in (c, "a" + c, c + ".1", "a." + c + "b", "[1" + c + ":2:3]", "1." + c + ".3", "xn--" + c):
            drive(m, g, "cause", ("host", (t, o % 2 == 0)))
            if o < 0x300:
                drive(m, g, "cause", ("host", (t, o % 2 == 1)))
                drive(m, g, "cause", ("url", (r.choice(frames) % t, None, "utf-8")))
        drive(m, g, "cause", ("url", ("http://h:8" + c, None, "utf-8")))
        drive(m, g, "cause", ("url", (c + "x", r.choice((None, "foo:o")), "utf-8")))
        drive(m, g, "cause", ("url", (c + ":x", None, "utf-8")))
        drive(m, g, "cause", ("ascii", ("a" + c, o % 2 == 0)))
    for s in shard(m, W.ipv4_grid()):
        if r.random() < 0.3:
            drive(m, g, "cause", ("host", (s, False)))
    for s in shard(m, W.ipv6_strings(6, 4)):
        drive(m, g, "cause", ("ipv6", (s,)))
    for s in shard(m, W.ipv6_piece_grid()):
        drive(m, g, "cause", ("host", ("[" + s + "]", r.random() < 0.5)))
    for s in shard(m, W.abs_strings(3 if deep(m) else 2)):
        drive(m, g, "cause", ("url", (s, None, "utf-8")))
    for s in W.novel(m, g):
        s = gen.SURR_RE.sub("x", s)
        drive(m, g, "cause", ("url", (s, r.choice((None, None, "foo:o", "http://b/")), "utf-8")))
    good = [b for b in gen.Gen.BASES if W.M_ok(b)]
    for _ in range(N(m, 9000, 250000)):
        x = r.random()
        if x < 0.45:
            s = nosurr(g.url if r.random() < 0.6 else g.ref)
            b = nosurr(g.base) if r.random() < 0.4 else None
            drive(m, g, "cause", ("url", (s, b, r.choice(ENCS))), s)
        elif x < 0.6:
            h = r.choice(bad) if r.random() < 0.4 else nosurr(g.host)
            h = gen.SURR_RE.sub("x", g.mutate(h))
            drive(m, g, "cause", ("url", (g.noise(r.choice(frames) % h), None, r.choice(ENCS))))
        elif x < 0.75:
            drive(m, g, "cause", ("host", (nosurr(g.host), r.random() < 0.3)))
        elif x < 0.85:
            drive(m, g, "cause", ("ascii", (nosurr(g.domain), r.random() < 0.5)))
        else:
            a = r.choice(("host", "hostname", "port", "protocol", "href", "host"))
            drive(m, g, "cause", ("set", (r.choice(good), a, gen.SURR_RE.sub("x", g.setval(a)))))
