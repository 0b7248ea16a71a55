"""Totality."""
from common import *

ID = "C13"
CASES = {"total": B.total, "icu_fault": B.icu_fault}
RULE = ("One evaluation makes one API call on one input, counting interpreter line events inside urlstd; it must return the documented type or raise a URLParseError, predicates must return a bool, and the number of steps must stay under 20000 + 400 x input length (counted for all long and pathological inputs and a sample of the others). "
        "Workload: all entry points x (random text, hostile corpus, every code point, very long and pathological inputs, deep nesting). ICU is made to fail at the first or second conversion inside a call: IDNAError or False, nothing changed, and the call works again. Distinct = distinct (entry point, outcome type, shape, length class).")
ASSUMPTIONS = ["arguments have the documented types", "termination is judged by executed source lines, not by time"]
REQUIRED = {"total_result_ok": 20000, "total_result_fail": 5000, "total_set": 1000, "total_can_parse": 1000, "total_host": 1000, "steps_bounded": 10000, "icu_faults": 1000}
URLISH = ("parse", "URL", "href", "can_parse", "is_valid", "urlparse", "origin")
HOSTISH = ("host", "host_valid", "domain_valid", "ipv4_valid", "ipv6_valid", "opaque_valid", "to_ascii", "to_unicode")
TEXTISH = ("params", "pdecode", "pencode", "scheme_valid")
PATHO = ["[" * 40, "]" * 40, "[:" * 300, ":" * 3000, "@" * 3000, "%" * 3000, "/" * 4000, "../" * 2000, "." * 4000, "\\" * 3000, "?" * 3000, "#" * 3000, "0x" + "f" * 5000, "9" * 5000, "0" * 5000, "1." * 2000,
         "xn--" * 300, "-" * 300, "\u00e9" * 2000, "\ud800" * 300, "a:" * 2000, "&" * 5000, "=" * 5000, "+" * 3000, "\t" * 3000, "\x00" * 500, " " * 3000, "1:" * 500 + ":", "::" * 500, "1.2.3." + "4" * 5000, "u:" + "@" * 500 + "h", "C|/" * 500, "%2e" * 2000, "\u3002" * 300, "0" * 5000 + "80", "\ufdd0" * 500]
FRAMES = ["%s", "http://%s", "http://%s/", "http://h:%s/", "http://h:%s", "http://%s@h/", "http://h/%s", "http://h/?%s", "http://h/#%s", "foo:%s", "foo://%s", "file:%s", "file://%s/", "%s://h", "http://[%s]/", "http://[::%s]/", "blob:%s", "foo:/%s", "http:%s", "foo://h:%s"]
ATTRS = gen.Gen.ATTRS


def work(m):
    import c07
    g = gen.Gen(m.rng)
    r = m.rng
    i = 0
    for f in FRAMES:
        for p in shard(m, PATHO):
            s = f % p
            i += 1
            drive(m, g, "total", (URLISH[i % 7], (s,), True))
            drive(m, g, "total", ("URL", (s,), True))
            drive(m, g, "total", ("resolve", (s, r.choice(W.KEYBASES)), True))
    for p in shard(m, PATHO):
        for h in HOSTISH:
            for q in (p, "[" + p + "]", "a" + p, p + ".1", "0x" + p):
                drive(m, g, "total", (h, (q,), True))
        drive(m, g, "total", ("host", (p, True), True))
        for t in TEXTISH:
            drive(m, g, "total", (t, (p,), True))
        drive(m, g, "total", ("qsl", (M.usv(p).encode("utf-8"),), True))
        for a in ATTRS:
            for b in ("http://u:p@h:81/a?b#c", "foo://h/a", "file:///C:/x", "foo:o ?q#f"):
                drive(m, g, "total", ("set", (b, a, p), True))
    for s in W.run_strings(m, g, 1 if deep(m) else 0.3):
        drive(m, g, "total", (r.choice(URLISH), (s,), True))
    for s, b in W.run_pairs(m, g, 1 if deep(m) else 0.15):
        drive(m, g, "total", (r.choice(("resolve", "URLref")), (s, b), True))
    for f, u in shard(m, [(f, u) for f in W.RUNFRAMES[:9] for u in W.RUNS]):
        b = f % (u * r.choice(W.run_lengths(g, "://%s" not in f and "h%s" not in f)))
        if W.M_ok(b):
            for a in ATTRS if deep(m) else r.sample(ATTRS, 3):
                drive(m, g, "total", ("set", (b, a, r.choice(("", "x", "/..", "a/../..", "?", "http:", "file", "https", "h:0", "0"))), True))
    for o in shard(m, list(range(0x300)) + list(range(0xD7F0, 0xE010, 5)) + list(range(0x300, 0x110000, 1511))):
        c = chr(o)
        for h in HOSTISH:
            drive(m, g, "total", (h, (r.choice(("", "a", "1.", "[")) + c + r.choice(("", "b", ".1", "]")),), True))
        drive(m, g, "total", (r.choice(URLISH), (r.choice(FRAMES) % c,), True))
        drive(m, g, "total", ("set", (r.choice(gen.Gen.BASES), r.choice(ATTRS), c), True))
        drive(m, g, "total", (r.choice(TEXTISH), (c,), True))
    for s in W.novel(m, g):
        drive(m, g, "total", (r.choice(URLISH), (s,), True))
        drive(m, g, "total", ("set", (r.choice(gen.Gen.BASES), r.choice(ATTRS), s), True))
        drive(m, g, "total", (r.choice(HOSTISH), (s,), True))
    for s in W.long_strings(m, g, W.ALL):
        if len(s) < 20000:
            drive(m, g, "total", (r.choice(("parse", "URL", "href", "urlparse")), (s,), True))
    for s in shard(m, W.ipv4_grid()):
        if deep(m) or r.random() < 0.25:
            drive(m, g, "total", (r.choice(("host", "host_valid", "ipv4_valid")), (s,), False))
    for s in shard(m, W.ipv4_long(g)):
        drive(m, g, "total", (r.choice(("host", "host_valid", "ipv4_valid")), (s,), len(s) > 300))
    for s in shard(m, W.ipv6_long(g)):
        drive(m, g, "total", (r.choice(("host", "host_valid")), ("[" + s + "]",), len(s) > 300))
        drive(m, g, "total", ("ipv6_valid", (s,), False))
    # search-parameter operations on long lists
    for n in shard(m, sorted({0, 1, 2, 100, 500, 1000, 2000, 4000} | {x for x in g.novel_len if x < 4500})):
        for order in ("up", "down", "same", "shuffled", "two", "long"):
            q = {"up": ["%05d=1" % i for i in range(n)], "down": ["%05d=1" % (n - i) for i in range(n)], "same": ["a=1"] * n, "two": ["b", "a"] * (n // 2), "long": ["a" * 60 + "%05d" % (n - i) for i in range(n // 10)]}.get(order)
            if q is None:
                q = ["%05d=1" % i for i in range(n)]
                r.shuffle(q)
            q = "&".join(q)
            for op in B.PARAM_TOTAL:
                for where in ("free", "url"):
                    drive(m, g, "total", ("params_op", (q, op, where), True))
    for s in shard(m, W.ipv6_piece_grid()):
        drive(m, g, "total", (r.choice(("host", "host_valid")), ("[" + s + "]",), False))
        drive(m, g, "total", ("ipv6_valid", (s,), False))
    for s in shard(m, W.ipv6_strings(6, 4)):
        drive(m, g, "total", ("ipv6_valid", (s,), False))
    for s in shard(m, W.abs_strings(3 if deep(m) else 2)):
        drive(m, g, "total", (r.choice(URLISH), (s,), False))
    for s in shard(m, g.corpus["hosts"]):
        for h in r.sample(HOSTISH, 3):
            drive(m, g, "total", (h, (s,), False))
    for s in shard(m, g.corpus["urls"]):
        for u in URLISH:
            drive(m, g, "total", (u, (s,), False))
    for b, a, v in shard(m, [(b, a, v) for b in gen.Gen.BASES for a in ATTRS for v in c07.VALS[a]]):
        drive(m, g, "total", ("set", (b, a, v), False))
    for s in shard(m, W.tokens(2, W.REFTOK)):
        for b in r.sample(gen.Gen.BASES, 8):
            drive(m, g, "total", ("resolve", (s, b), False))
    DOM = ["\u00e9", "ex\u00e4mple.org", "xn--zca", "a.b", "EXAMPLE", "a\u3002b", "%c3%a9", "\u00df.de", "h"]
    for _ in range(N(m, 600, 12000)):
        d = r.choice(DOM) if r.random() < 0.6 else g.domain()[:60]
        fn = r.choice(URLISH + ("URLref", "resolve", "host", "host_valid", "domain_valid", "to_ascii", "to_unicode", "set", "set", "set"))
        args = {"URLref": ("//%s/x" % d, "http://\u00e9/"), "resolve": ("//" + d, "ws://a/"), "set": (g.base() if r.random() < 0.5 else "http://u:p@%s:81/a?b#c" % r.choice(DOM), r.choice(("host", "hostname", "href", "host")), d)}.get(fn)
        if fn == "set" and args[1] == "href":
            args = (args[0], "href", "https://%s/" % d)
        if args is None:
            args = ("%s://%s%s" % (r.choice(("http", "file", "wss")), d, r.choice(("", "/", ":81/a?b#c"))),) if fn in URLISH else (d,)
        drive(m, g, "icu_fault", (fn, args, r.choice((1, 1, 1, 2)), r.choice(B.IcuFault.CODES)))
    for _ in range(N(m, 14000, 240000)):
        lim = r.random() < 0.1
        x = r.random()
        if x < 0.3:
            drive(m, g, "total", (r.choice(URLISH), (g.url(),), lim))
        elif x < 0.45:
            drive(m, g, "total", (r.choice(("resolve", "URLref")), (g.ref(), g.base()), lim))
        elif x < 0.65:
            s = r.choice((g.host, g.text, g.ipv4, g.ipv6, g.domain))()
            drive(m, g, "total", (r.choice(HOSTISH), (s,), lim))
        elif x < 0.9:
            a = r.choice(ATTRS)
            drive(m, g, "total", ("set", (g.base(), a, g.setval(a) if r.random() < 0.7 else g.text()), lim))
        else:
            drive(m, g, "total", (r.choice(TEXTISH), (g.text(),), lim))
