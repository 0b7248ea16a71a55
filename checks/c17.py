"""Diagnostics do not change results."""
from common import *

ID = "C17"
CASES = {"logs": B.logs, "fresh": B.fresh, "logs_hist": B.logs_hist}
RULE = ("One evaluation makes one call with logging off, at DEBUG, at INFO, with a silent ValidityState and with a logging one, plus (sometimes) a handler that re-enters the library from inside a log record; results must be identical, records formattable, silent means no records, and records and ValidityState must list the same errors. "
        "'fresh' evaluations start new interpreters whose loggers were configured before urlstd is imported. Distinct = distinct (API, error list, outcome, re-entrancy).")
ASSUMPTIONS = ["logger hierarchy below 'urlstd'"]
REQUIRED = {"log_records": 10000, "validity_errors": 3000, "log_vs_state": 2000, "log_levels": 1000, "fresh": 3, "log_histories": 2000}


def work(m):
    g = gen.Gen(m.rng)
    r = m.rng
    apis = list(B._apis(H.load()[0]))
    for k in shard(m, ("plain", "preconfigured", "own_class", "adapter_class", "debug", "disabled")):
        drive(m, g, "fresh", (k,))
    urls = [nosurr(g.url) for _ in range(40)]

    def one(s, b=None):
        a = r.choice(apis)
        drive(m, g, "logs", (a, s, b, r.choice((None, None, None, "http://a|b/%", "foo:%", "file:///C|/\\", "http://[::1"))))
    for s in shard(m, g.corpus["urls"]):
        s = M.usv(s)
        drive(m, g, "logs", (r.choice(apis[:3]), s, r.choice((None, "http://h/a|b", "file:///x")), None))
    for s in shard(m, W.low_points(W.ALL, 0xA8)):
        drive(m, g, "logs", (r.choice(apis[:3]), s, None, r.choice((None, None, "foo:%"))))
    for s in shard(m, W.abs_strings(2)):
        drive(m, g, "logs", (r.choice(apis[:3]), s, None, None))
    for s in W.novel(m, g):
        if not gen.SURR_RE.search(s) and len(s) < 2000:
            one(s)
    for s in shard(m, g.corpus["hosts"]):
        drive(m, g, "logs", (r.choice(apis[3:]), M.usv(s), None, None))
    import c06, c07
    states = sorted(B.STATES)
    A = {"authority": "host", "scheme start": "protocol", "host": "host", "hostname": "hostname", "port": "port", "path start": "pathname", "query": "search", "fragment": "hash"}

    def ov():
        st = r.choice(states)
        return ("ov", st, (r.choice(c07.VALS[A[st]]) if r.random() < 0.5 else nosurr(lambda: g.setval(A[st]))) + (":" if st == "scheme start" and r.random() < 0.5 else ""))
    for _ in range(N(m, 1200, 20000)):
        if r.random() < 0.5:
            t = c06.rand_record(m, g)
            if r.random() < 0.3:
                t = (r.choice(("foo", "data")), "", "", None, None, r.choice(("o  ", "  ", "o", " x ")), None, None)
            opq = isinstance(t[5], str)
            # as the standard's API prepares it
            ops = [o for o in (ov() for _ in range(r.choice((1, 2, 3)))) if not (opq and o[1] not in ("scheme start", "query", "fragment"))]
            ops = [o for o in ops if not (o[1] == "query" and t[6] is None or o[1] == "fragment" and t[7] is None)]
            if ops:
                drive(m, g, "logs_hist", (t, ops))
        else:
            b = nosurr(g.grid) if r.random() < 0.5 else nosurr(g.base)
            if C.model(M.parse_url, b)[0] == "ok":
                drive(m, g, "logs_hist", (b, [g.setop() if r.random() < 0.8 else ("params",) + g.paramop() for _ in range(r.choice((1, 2, 4)))]))
    for _ in range(N(m, 14000, 200000)):
        if r.random() < 0.7:
            s = nosurr(g.url)
            a = r.choice(apis[:3])
            b = None if r.random() < 0.7 else nosurr(g.base)
        else:
            s, b = nosurr(r.choice((g.host, g.ipv4, g.ipv6, g.domain))), None
            a = r.choice(apis[3:])
        if len(s) > 2000:
            continue
        drive(m, g, "logs", (a, s, b, r.choice((None, None, None, "http://a|b/%", nosurr(g.url)[:200]))), s)
