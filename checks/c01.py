"""Absolute URL parsing conforms to the standard."""
from common import *

ID = "C01"
CASES = {"parse": C.parse}
RULE = ("One evaluation parses one string through parse_url, URL and can_parse and compares every component, getter and serialization with the model. "
        "Workload: WPT corpus, all strings of hostile tokens up to a length after every scheme prefix, every code point in every component, component lengths across boundaries, "
        "literals new in the source, grammar/mutation fuzzing with line and model-state feedback. Distinct = distinct (model state path, outcome, input shape).")
ASSUMPTIONS = [MODEL, ICU, "inputs are str; surrogates next to tab/newline excluded"]
REQUIRED = {"parse_ok": 10000, "parse_fail": 1000}


def work(m):
    g = gen.Gen(m.rng)
    for s in W.corpus_urls(m, g):
        drive(m, g, "parse", (s,), s)
    for s in W.novel(m, g):
        drive(m, g, "parse", (s,), s)
    for s in shard(m, W.low_points(W.ALL)):
        drive(m, g, "parse", (s,), s)
    for s in shard(m, W.abs_strings(4 if deep(m) else 3)):
        drive(m, g, "parse", (s,))
    for s in W.high_points(m, W.COMPONENT, deep(m)):
        drive(m, g, "parse", (s,))
    for s in W.long_strings(m, g, W.ALL):
        drive(m, g, "parse", (s, False))
    for s in W.run_strings(m, g, 1 if deep(m) else 0.3):
        drive(m, g, "parse", (s, False))
    for _ in range(N(m, 30000, 400000)):
        s = g.url()
        drive(m, g, "parse", (s,), s)
