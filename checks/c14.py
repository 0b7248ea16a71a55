"""Purity and isolation."""
import re

from common import *

ID = "C14"
CASES = {"pure": B.pure, "interleave": B.interleave, "threads": B.threads, "params": B.params, "parse": C.parse, "noalias": B.noalias, "preempt": B.preempt, "containers": B.containers, "seq": B.seq, "interrupt": B.interrupt, "interrupt_set": B.interrupt_set}
RULE = ("One evaluation (a) parses against a live base object twice, then scribbles over one result and over the base and checks that nothing else moved; (b) drives several URL objects alternately, each against its own model; "
        "(c) runs 4-6 threads over parse/resolve/IDNA/validation/setter jobs with forced switches at random source lines of urlstd and compares every result with the result alone; (d) stops one call at a chosen source line, runs another call to completion in a second thread and lets the first go on, over up to 60 steps of the first call; (e) abandons one call by a KeyboardInterrupt at chosen source lines and makes it and others again. Distinct = distinct shapes, operation orders, thread schedules and switch points.")
ASSUMPTIONS = [MODEL, "threads share only base objects they do not modify", "thread switches happen at source-line boundaries (CPython with the GIL)"]
REQUIRED = {"pure_ok": 2000, "interleaved_ops": 5000, "thread_switches_inside_urlstd": 2000, "thread_results": 500, "preemptions": 10000, "noalias": 500, "containers": 500, "seq_calls": 20000, "interrupts": 5000, "assignments_interrupted": 2000}


OKURL = ["http://h1/", "https://a.example/x?y#z", "ftp://h/", "file:///a/b", "mailto:x", "data:,x", "http://[::1]/", "http://1.2.3.4:80/", "ws://h/?q"]
BADURL = ["http://u:p@h2/ ", "http:\\\\h\\a|", "foo:x^", "file:C|/x", "http://1.2.0x3/", "http://[::1", "http://a b/", "//x", "http://h:99999/", "http://h/%zz%1", "nosuch:y", "http://0x7f.1/"]
OKHOST = ["a.b", "example.com", "1.2.3.4", "[::1]", "xn--bcher-kva.example", "b\u00fccher.de"]
BADHOST = ["a..b", "1.2.3", "1.2.3.256", "[::1", "a b", "xn--a", "[1::2::3]", "", "a" * 64, "01.2.3.4"]


def hist(m, g, n):
    return [g.setop() if m.rng.random() < 0.6 else ("params",) + g.paramop() for _ in range(n)]


KINDS = ("parse", "parse", "resolve", "resolve_url", "can_parse", "errors", "host", "idna", "qsl", "hist", "own", "own", "urlparse", "vhost", "vurl", "params", "origin", "unidna", "penc")


def job(m, g, k=None):
    r = m.rng
    k = k or r.choice(KINDS)
    if k in ("own", "urlparse"):
        return (k, g.ref()[:300], okbase(m, g) if r.random() < 0.8 else None, r.choice(("utf-8", "utf-8", "windows-1252", "shift_jis", "utf-16-le")))
    if k == "vhost":
        return (k, nosurr(g.host)[:120])
    if k == "vurl":
        return (k, nosurr(g.url)[:300])
    if k == "params":
        return (k, g.query()[:200], [g.paramop() for _ in range(r.randrange(1, 4))])
    if k == "origin":
        return (k, g.url()[:300])
    if k == "unidna":
        return (k, g.domain()[:100], r.random() < 0.3)
    if k == "penc":
        return (k, g.text()[:100], r.choice(("utf-8", "windows-1252", "shift_jis")))
    if k in ("parse", "can_parse"):
        return (k, g.url()[:400])
    if k == "errors":
        return (k, nosurr(g.url)[:400])
    if k in ("resolve", "resolve_url"):
        return (k, g.ref()[:400])
    if k == "host":
        return (k, g.host()[:200], r.random() < 0.3)
    if k == "idna":
        return (k, g.domain()[:200], r.random() < 0.5)
    if k == "qsl":
        return (k, M.usv(g.query()).encode("utf-8")[:400])
    while True:
        b = g.base()
        if C.model(M.parse_url, b)[0] == "ok":
            return (k, b, hist(m, g, r.randrange(1, 5)))


def okbase(m, g):
    while True:
        b = g.base()
        if C.model(M.parse_url, b)[0] == "ok":
            return b


def other(s):
    """the same text with other letters and digits (scheme, escapes and
    anything that is not ASCII kept)"""
    f = lambda x: x.group(0) if x.group(1) else chr(ord(x.group(0)) + 1)  # noqa: E731
    return re.sub(r"(^[A-Za-z+.-]+:|%[0-9A-Fa-f]{2}|xn--[a-z0-9-]*|0[xX])|[a-eg-yA-EG-Y1-7]", f, s)


def vary(j):
    def v(x):
        if isinstance(x, str):
            return other(x)
        if isinstance(x, (list, tuple)):
            return type(x)(v(y) for y in x)
        return x
    k = j[0]
    if k in ("own", "urlparse"):
        b = j[2] and other(j[2])
        return (k, other(j[1]), b if b is None or W.M_ok(b) else j[2], j[3])
    if k == "hist":
        return (k, other(j[1]), [(o[0], o[1], v(o[2])) for o in j[2]])
    if k == "params":
        return (k, other(j[1]), [(fn, v(a)) for fn, a in j[2]])
    if k == "qsl":
        return (k, other(j[1].decode("latin-1")).encode("latin-1"))
    if k == "penc":
        return (k, other(j[1]), j[2])
    return (k, other(j[1])) + tuple(j[2:])


def few_inputs(m, g):
    r = m.rng
    hosts = [nosurr(g.host)[:80] for _ in range(2)] + r.sample(("a%41", "XN--zca", "\u00e9", "a_b", "-a-", "1.2", "0x7f.1", "a|b", "h"), 2)
    urls = [nosurr(g.url)[:200] for _ in range(2)] + ["%s://%s/%s?%s#%s" % (r.choice(("http", "foo", "file", "ws")), r.choice(hosts), g.text(0)[:9], r.choice(("\u00e9", "\u3042 '", "a=%zz&b")), r.choice(("", "\u00e9"))) for _ in range(2)]
    urls = [u for u in urls if not gen.SURR_RE.search(u)]
    bases = [u for u in urls if W.M_ok(u)] + [okbase(m, g), okbase(m, g) + "?\u00e9"]
    bases = [b for b in bases if W.M_ok(b)]
    return hosts, urls + ["?\u00e9", "#", "x"], bases, [g.query()[:60] for _ in range(2)]


def few_job(m, g, few):
    r = m.rng
    hosts, urls, bases, qs = few
    k = r.choice(KINDS)
    e = r.choice(("utf-8", "utf-8", "windows-1252", "shift_jis", "utf-16-le", "Windows-1252"))
    if k in ("own", "urlparse"):
        return (k, r.choice(urls), r.choice(bases + [None]), e)
    if k in ("host", "idna", "unidna"):
        return (k, r.choice(hosts), r.random() < 0.5)
    if k == "vhost":
        return (k, r.choice(hosts))
    if k == "params":
        return (k, r.choice(qs), [g.paramop() for _ in range(r.randrange(0, 3))])
    if k == "penc":
        return (k, r.choice(hosts + qs), r.choice(("utf-8", "windows-1252", "shift_jis")))
    if k == "qsl":
        return (k, M.usv(r.choice(qs)).encode("utf-8"))
    if k == "hist":
        return (k, r.choice(bases), hist(m, g, r.randrange(0, 3)))
    return (k, r.choice(urls))


def work(m):
    import c07
    g = gen.Gen(m.rng)
    r = m.rng
    for s in shard(m, W.tokens(2, W.REFTOK)):
        for b in r.sample(gen.Gen.BASES, 6):
            drive(m, g, "pure", (s, b), s)
    for s in shard(m, g.corpus["urls"]):
        drive(m, g, "pure", (s, r.choice(gen.Gen.BASES)), s)
    for s in W.novel(m, g):
        drive(m, g, "pure", (s, r.choice(W.KEYBASES)))
    # the same inputs again and again in different orders: no history dependence
    hot = [g.url() for _ in range(25)] + r.sample(g.corpus["urls"], 25)
    for _ in range(N(m, 6, 40)):
        r.shuffle(hot)
        for s in hot:
            drive(m, g, "parse", (s,))
            if r.random() < 0.3:
                drive(m, g, "pure", (s, r.choice(W.KEYBASES)))
    for _ in range(N(m, 3500, 60000)):
        drive(m, g, "pure", (g.ref(), g.base()))
    for _ in range(N(m, 2500, 40000)):
        n = r.choice((2, 2, 3, 4))
        starts = [okbase(m, g) for _ in range(n)]
        if r.random() < 0.6:
            starts = [starts[0]] * n
        drive(m, g, "interleave", (starts, [(r.randrange(n), o) for o in hist(m, g, r.choice((4, 8, 12)))]))
    for _ in range(N(m, 150, 1500)):
        drive(m, g, "noalias", ([(g.name(), g.value()) for _ in range(r.randrange(1, 6))], okbase(m, g)))
    for i in range(N(m, 12, 300)):
        nt = r.choice((4, 6))
        if i % 2 == 0:
            # every thread works on variations of the same few inputs
            few = [job(m, g) for _ in range(4)]
            jobs = [[r.choice(few) for _ in range(8)] for _ in range(nt)]
        else:
            jobs = [[job(m, g) for _ in range(8)] for _ in range(nt)]
        drive(m, g, "threads", (r.randrange(1 << 30), jobs, okbase(m, g)))
    for _ in range(N(m, 200, 4000)):
        pairs = [(g.name(), g.number() if r.random() < 0.5 else g.value()) for _ in range(r.randrange(1, 5))]
        pieces = r.choice(([0] * 8, [0xFFFF] * 8, [r.choice((0, 0, 1, 0xFFFF, r.randrange(65536))) for _ in range(8)]))
        drive(m, g, "containers", (pairs, pieces, [g.paramop() for _ in range(3)]))
    # few inputs, every option, in every order
    for _ in range(N(m, 150, 3000)):
        few = few_inputs(m, g)
        jobs = [few_job(m, g, few) for _ in range(40)]
        drive(m, g, "seq", (jobs, okbase(m, g)))
    # a call abandoned half way
    for i in range(N(m, 60, 2500)):
        base = okbase(m, g)
        few = few_inputs(m, g)
        a = few_job(m, g, few) if i % 2 else job(m, g, KINDS[i % len(KINDS)])
        n = B.interrupt_len(a, base)
        ks = sorted(r.sample(range(1, n + 1), min(n, 24)))
        b = vary(a)
        follow = [b] if b[0] != "hist" or W.M_ok(b[1]) else []
        drive(m, g, "interrupt", (a, ks, follow + [few_job(m, g, few) for _ in range(2)], base))
    for i in range(N(m, 120, 4000)):
        b = okbase(m, g)
        op = hist(m, g, 1)[0]
        drive(m, g, "interrupt_set", (b, op, sorted(r.sample(range(1, 130), 14)), okbase(m, g), hist(m, g, 2)))
    # one preemption at every (or a sample of) source line of a call; the other
    # call mostly takes the same way through the code with other data
    pairs = []
    for s, b in r.sample([(s, b) for s in W.tokens(2, W.REFTOK) for b in gen.Gen.BASES], N(m, 60, 2500)):
        k = r.choice(("own", "own", "urlparse"))
        pairs.append((k, s, b, "utf-8"))
    pairs += [("own", x, None, r.choice(("utf-8", "windows-1252"))) for x in r.sample(g.corpus["urls"], N(m, 25, 400))]
    pairs += [(k, x, r.random() < 0.3) for k in ("host", "idna", "unidna") for x in r.sample(g.corpus["hosts"], N(m, 8, 100))]
    pairs += [("vhost", x) for x in r.sample([x for x in g.corpus["hosts"] if not gen.SURR_RE.search(x)], N(m, 8, 100))]
    pairs += [("hist", b, [("set", a, r.choice(c07.VALS[a]))]) for b in r.sample([b for b in gen.Gen.BASES if W.M_ok(b)], 5) for a in gen.Gen.ATTRS]
    pairs += [job(m, g, KINDS[i % len(KINDS)]) for i in range(N(m, 60, 2000))]
    pairs = [(a, None) for a in pairs]
    # calls with opposite outcomes
    for k in ("vurl", "vurl", "vhost", "can_parse", "errors", "errors"):
        good, bad = (OKHOST, BADHOST) if k == "vhost" else (OKURL, BADURL)
        for _ in range(N(m, 2, 60)):
            x, y = (k, r.choice(good)), (k, r.choice(bad))
            pairs += [(x, y), (y, x), (x, ("vurl", r.choice(BADURL))), (y, ("vurl", r.choice(OKURL)))]
    for a, other in pairs:
        b = other or vary(a) if other or r.random() < 0.8 else job(m, g, a[0] if r.random() < 0.6 else None)
        if b[0] == "hist" and not W.M_ok(b[1]):
            b = a
        base = okbase(m, g)
        drive(m, g, "preempt", (a, b, B.preempt_plan(m, a, base, 60 if r.random() < 0.2 else 35), base))
