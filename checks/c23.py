"""Nothing accumulates over the life of a process."""
from common import *

ID = "C23"
CASES = {"retention": B.retention}
RULE = ("One evaluation makes thousands of calls of one kind (or a mix) with inputs never used before, drops the results, and compares allocated memory (tracemalloc, resident size), loggers, threads and descriptors between batches, and the steps one call takes before and after; growth counts only if every batch shows it, and still after 50000 more calls, so bounded caches may fill. "
        "Workload: every kind of call x shapes of input (accepted, rejected, long, non-ASCII, legacy encodings). Distinct = distinct (kinds, number of batches, steps).")
ASSUMPTIONS = ["growth below 16 bytes per call is not seen", "memory allocated by ICU itself is seen through the resident size only (400 bytes per call)"]
REQUIRED = {"retention_calls": 80000, "retention_probes": 60}
KINDS = [
    [("parse", "x@@:o"), ("parse", "x@@:/p"), ("parse", "x@@://h/"), ("parse", "x@@:"), ("can_parse", "a+@@:?")], [("vurl", "x@@:y"), ("origin", "y@@://h"), ("urlparse", "z@@:a;b", None, "utf-8")],
    [("parse", "http://u@@:p@h@@.example:81/a@@/../b?q=@@#f")], [("parse", "foo://h@@/x"), ("parse", "foo:@@ x"), ("parse", "file:///C|/@@")], [("parse", "http://\u00e9@@.com/"), ("parse", "http://xn--@@-/")],
    [("parse", "//@@"), ("parse", "http://a b@@"), ("parse", "http://[@@::]/"), ("parse", "http://1.2.3.@@.5/"), ("parse", "http://h:9@@/"), ("parse", "http://u@@@/")],
    [("can_parse", "http://@@|/"), ("can_parse", "ws:@@")], [("resolve", "../@@"), ("resolve", "?@@"), ("resolve", "#@@"), ("resolve", "//@@")], [("resolve_url", "x@@"), ("resolve_url", "/@@"), ("resolve_url", "http:@@")],
    [("own", "?\u00e9@@", "http://b@@/", "windows-1252"), ("own", "x@@", "foo:/@@", "shift_jis"), ("own", "@@", "foo:o@@", "utf-8")], [("urlparse", "http://h/@@;p?q#@@", None, "utf-8")],
    [("errors", "http:\\\\h@@\\ |"), ("errors", "foo:%@@"), ("errors", "http://h@@:x")], [("vurl", "http://h@@/"), ("vurl", "@@:x"), ("vurl", "http:@@")],
    [("vhost", "h@@"), ("vhost", "1.2.3.@@"), ("vhost", "[::@@]"), ("vhost", "\u00e9@@"), ("vhost", "%@@")], [("host", "H@@", False), ("host", "h%@@", True), ("host", "0x@@", False)],
    [("idna", "a@@.\u00e9", False), ("idna", "a@@_b", True), ("idna", "\ufdd0@@", False)], [("unidna", "xn--e@@", False), ("unidna", "a@@.B", True)], [("qsl", b"a@@=1&b=%@@&c"), ("qsl", b"%FF@@")],
    [("params", "a@@=1", [("append", ("b@@", "@@")), ("sort", ()), ("set", ("a", "@@")), ("delete", ("b@@",)), ("get", ("@@",))])], [("origin", "http://h@@/"), ("origin", "blob:http://h@@/"), ("origin", "foo:@@")],
    [("penc", "\u3042@@ ", "windows-1252"), ("penc", "\u00e9@@", "utf-8")],
    [("hist", "http://h/", [("set", a, "@@") for a in ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")]), ("hist", "foo:o@@", [("set", "href", "http://h@@/?q"), ("params", "append", ("k@@", "v"))])],
    [("live", [("set", a, v) for a, v in (("protocol", "x@@"), ("username", "@@"), ("host", "h@@:8"), ("port", "@@"), ("pathname", "/@@"), ("search", "q=@@"), ("hash", "@@"), ("host", "a b@@"), ("href", "@@"))])],
    [("live", [("set", "href", "http://h@@/"), ("set", "search", "?@@"), ("copy", "k@@")]), ("live", [("set", "href", "foo:o@@"), ("params", "set", ("a", "@@")), ("set", "search", "")])],
    [("live", [("params", "append", ("k@@", "1")), ("params", "sort", ()), ("params", "delete", ("k@@",)), ("params", "get", ("@@",))])], [("live", [("valid", "http:\\\\h@@ |"), ("valid", "@@"), ("valid", "[@@")])],
    [("parse", "http://h/" + "a@@/" * 30), ("parse", "foo:" + "x" * 300 + "@@")],
]


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    for jobs in shard(m, KINDS):
        drive(m, g, "retention", (jobs, "http://u:p@b:81/a/b?q", 6000 if deep(m) else 3000, 16))
    for _ in range(N(m, 4, 60)):
        jobs = [j for k in r.sample(KINDS, 4) for j in k]
        drive(m, g, "retention", (jobs, r.choice(W.KEYBASES), r.choice((1000, 2500)), 16))
