"""Validators."""
from common import *

ID = "C16"
CASES = {"vhost": B.vhost, "vurl": B.vurl, "vscheme": B.vscheme}
RULE = ("One evaluation validates one host or URL (with a fresh and with a previously used ValidityState) and compares the verdict, and for parsable URLs the ordered list of error types, with the model; the ValidityState must be internally consistent. "
        "Workload: grids over IPs, every code point in every component, hostile tokens, every registered scheme and near misses, fuzzing. Distinct = distinct (error list, verdict) and (validator, verdict, shape).")
ASSUMPTIONS = [MODEL, ICU, "scalar value strings only (no surrogates)", "the registry is the CSV shipped with the package", "repeated invalid-URL-unit reports after a drive-letter host are not compared"]
REQUIRED = {"url_valid": 2000, "url_parsable_invalid": 5000, "url_unparsable": 2000, "is_valid_True": 300, "is_valid_False": 300, "is_valid_domain_True": 200, "is_valid_ipv4_address_True": 100, "is_valid_ipv6_address_True": 100, "is_valid_opaque_host_True": 200, "scheme_True": 300}
VH = ("is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host")
PRIOR = "http:\\\\h\\\\" + "% " * 9 + "?" + "`|" * 8 + "#" + "^{" * 12  # many errors of several types, still parses
PRIORBIG = "http://h/" + "%" * 300


def goodish(m, g):
    r = m.rng
    s = r.choice(("http", "https", "ftp", "file", "ws", "mailto", "data", "about", "foo", "urn")) + ":"
    if not s.startswith(("mailto", "data", "about", "urn")):
        s += "//" + r.choice(("h", "example.com", "1.2.3.4", "[::1]", "\u00e9.com", "xn--zca")) + r.choice(("", "", ":81", ":80", ":0"))
    s += r.choice(("", "/", "/a/b", "/%41", "/a%20b")) + r.choice(("", "?", "?a=1", "?%zz")) + r.choice(("", "#", "#f", "#\u00e9"))
    if r.random() < 0.3:
        s = g.mutate(s)
    return s


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    sch = sorted(B.schemes())
    for s in shard(m, sch):
        for f in (s, s.upper(), s.title(), s.replace("k", "\u212a"), s.replace("s", "\u017f"), s.replace("i", "\u0130"), s + "x", s[:-1], " " + s, s + ":", s + "\n", s + " (OBSOLETE)"):
            drive(m, g, "vscheme", (f,))
        drive(m, g, "vurl", (s + "://h/", None, None))
        drive(m, g, "vurl", (s + "x:y", None, "x y"))
    for s in ("", "shttp (OBSOLETE)", "shttp", "URI Scheme", "Permanent", "\u212a", "http\u0130", ",", "\"", "\u017f", "M\u017f", "\u212aeyparc", "\u017fftp"):
        drive(m, g, "vscheme", (s,))
    for s in shard(m, W.ipv4_grid()):
        if r.random() < 0.35:
            drive(m, g, "vhost", (s, r.choice(("is_valid", "is_valid_ipv4_address", "is_valid_ipv4_address")), None))
    for s in shard(m, W.ipv4_long(g)):
        drive(m, g, "vhost", (s, r.choice(("is_valid", "is_valid_ipv4_address", "is_valid_ipv4_address", "is_valid_domain")), None))
        if r.random() < 0.15 and len(s) < 600:
            drive(m, g, "vurl", (r.choice(("http://%s/", "foo://%s", "file://%s/x", "ws://%s:8/")) % s, None, None))
    for s in shard(m, W.ipv6_long(g)):
        drive(m, g, "vhost", (s, "is_valid_ipv6_address", None))
        drive(m, g, "vhost", ("[" + s + "]", r.choice(("is_valid", "is_valid_opaque_host")), None))
    for s in shard(m, W.ipv6_strings(6, 4)):
        drive(m, g, "vhost", (s, "is_valid_ipv6_address", None))
    for s in shard(m, W.ipv6_piece_grid()):
        drive(m, g, "vhost", (s, "is_valid_ipv6_address", None))
        drive(m, g, "vhost", ("[" + s + "]", r.choice(("is_valid", "is_valid_opaque_host")), None))
    for ip in shard(m, W.IP6SAMPLES):
        for f in W.bracketed(ip):
            for w in VH:
                drive(m, g, "vhost", (f, w, None))
            for t in ("http://%s/", "foo://%s/", "file://%s/"):
                drive(m, g, "vurl", (t % f, None, None))
    for v in shard(m, range(0, 1300)):
        drive(m, g, "vhost", (("%d.%d.0.1" % (v % 300, v // 4) if v % 2 else "1.2.3.%d" % v), "is_valid_ipv4_address", None))
    for o in shard(m, range(0x3000 if not deep(m) else 0x110000)):
        if 0xD800 <= o <= 0xDFFF:
            continue
        c = chr(o)
        drive(m, g, "vhost", ("a" + c + "b", VH[(0, 1, 4)[o % 3]], None))
        drive(m, g, "vhost", ("a" + c + "b", "is_valid_opaque_host", None))
    for o in shard(m, [x for p in range(17) for x in (p * 0x10000 + 0xFFFD, p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF)] + list(range(0xFDC0, 0xFE00)) + list(range(0x80, 0xC0))):
        for t in W.COMPONENT.values():
            drive(m, g, "vurl", (t % chr(o), None, None))
        drive(m, g, "vhost", (chr(o), "is_valid_opaque_host", None))
    for s in shard(m, W.low_points(W.ALL, 0x100)):
        drive(m, g, "vurl", (s, None, None))
    for s in shard(m, W.tokens(3, ["a", "%", "41", "%4", ":", "[", "]", ".", "1", "-", "\u00e9", " ", "%zz", "/"])):
        drive(m, g, "vhost", (s, r.choice(VH), r.choice((None, "a b"))))
        drive(m, g, "vhost", (s, "is_valid_opaque_host", None))
    for n in shard(m, sorted(set(list(range(55, 70)) + list(range(245, 260)) + [x for x in g.novel_len if x < 1200]))):
        for s in ("a" * n, "a" * n + ".com", ".".join(["a" * 60] * 4) + "." + "b" * max(0, n - 240), ("ab." * n)[:n], "\u00e9" * n):
            for w in VH:
                drive(m, g, "vhost", (s, w, None))
    for s in shard(m, W.abs_strings(2)):
        drive(m, g, "vurl", (s, None, r.choice((None, "x y", PRIOR))))
    for s in shard(m, g.corpus["urls"]):
        s = M.usv(s)
        drive(m, g, "vurl", (s, None, None))
        drive(m, g, "vurl", (s, M.usv(r.choice(gen.Gen.BASES)), None))
    for s in shard(m, g.corpus["hosts"]):
        s = M.usv(s)
        drive(m, g, "vhost", (s, r.choice(VH[:2]), r.choice((None, "a b"))))
    for s in W.novel(m, g):
        if not gen.SURR_RE.search(s) and len(s) < 3000:
            drive(m, g, "vurl", (s, None, None))
    for t in shard(m, g.novel_s[:60]):
        if not gen.SURR_RE.search(t):
            drive(m, g, "vscheme", (t,))
            for w in VH:
                for f in (t, "a" + t, t + ".com", "a" + t + "b"):
                    drive(m, g, "vhost", (f, w, None))
    for _ in range(N(m, 14000, 250000)):
        x = r.random()
        if x < 0.30:
            drive(m, g, "vhost", (nosurr(r.choice((g.host, g.ipv4, g.ipv6, g.domain, g.text))), r.choice(VH), r.choice((None, None, "a b", PRIOR))))
        elif x < 0.55:
            s = nosurr(lambda: goodish(m, g))
            drive(m, g, "vurl", (s, None, r.choice((None, "x y", PRIOR, PRIORBIG))), s)
        else:
            s = nosurr(g.url if r.random() < 0.6 else g.ref)
            drive(m, g, "vurl", (s, None if r.random() < 0.6 else nosurr(g.base), r.choice((None, "x y"))), s)
