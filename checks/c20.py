"""Independence of the process environment."""
from common import *
import c14

ID = "C20"
CASES = {"environ": B.environ}
RULE = ("One evaluation starts a new interpreter in one of %d environments (optimisation levels, hash seeds, locales, digit limits, collector settings, missing streams, other threads, forked children ...), runs a battery of calls there under an audit hook, "
        "compares every result with the same call in the checking process, and checks that nothing was written, sent, started, printed or reconfigured. Distinct = distinct (environment, call kind, outcome)." % len(B.ENVS))
ASSUMPTIONS = ["reading files (lazy imports of codecs, ICU data) is not a side effect"]
REQUIRED = {"interpreters": 60, "environment_results": 15000}


def battery(m, g, n):
    r = m.rng
    jobs = [c14.job(m, g, c14.KINDS[i % len(c14.KINDS)]) for i in range(n)]
    few = c14.few_inputs(m, g)
    jobs += [c14.few_job(m, g, few) for _ in range(n // 4)]
    jobs += [("own", s, b if W.M_ok(b) else None, "utf-8") for s, b in ((r.choice(g.corpus["urls"]), r.choice(gen.Gen.BASES)) for _ in range(n // 3))]
    jobs += [("host", s, False) for s in r.sample(g.corpus["hosts"], n // 8)]
    for k in (639, 640, 641, 4300, 4301, 5000):
        jobs += [("own", "http://h:%s80/" % ("0" * k), None, "utf-8"), ("own", "http://h:1%s/" % ("0" * k), None, "utf-8"), ("host", "0" * k + "1", False), ("host", "9" * k, False), ("host", "0x" + "f" * k, False),
                 ("host", "0" + "7" * k, False), ("own", "http://[::%s1]/" % ("0" * k), None, "utf-8"), ("hist", "http://h/", [("set", "port", "0" * k + "81")]), ("hist", "http://h/", [("set", "port", "9" * k)])]
    for _ in range(n // 5):
        jobs.append(("pinit", [(g.name(), g.number() if r.random() < 0.2 else g.value()) for _ in range(r.randrange(0, 8))], r.random() < 0.5))
        jobs.append(("verr", nosurr(g.url)[:300]))
        jobs.append(("errtype", g.url()[:300]))
        jobs.append(("show", c14.okbase(m, g)))
        jobs.append(("eqs", c14.okbase(m, g), c14.okbase(m, g)))
        jobs.append(("codec", g.text()[:80], r.choice(("", "/", "%~")), r.choice(("utf-8", "windows-1252", "shift_jis", "euc-kr"))))
    jobs.append(("schemes", sorted(B.schemes()) + ["x-no", "HTTP", ""]))
    r.shuffle(jobs)
    return jobs


def work(m):
    g = gen.Gen(m.rng)
    for rnd in range(N(m, 3, 40) or 1):
        for i, name in enumerate(B.ENVS):
            # every environment is visited by three workers (thorough: by all)
            if deep(m) or (i - m.shard) % 8 in (0, 3, 5):
                drive(m, g, "environ", (name, battery(m, g, 240), c14.okbase(m, g)))
