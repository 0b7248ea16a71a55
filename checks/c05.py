"""IDNA."""
from common import *

ID = "C05"
CASES = {"idna": C.idna}
RULE = ("One evaluation converts one domain with domain_to_ascii and domain_to_unicode, strict or not, compares value/failure with UTS46 processing under the standard's flags, and checks idempotence and the ASCII lower-casing law. "
        "Workload: IdnaTestV2/WPT hosts, every code point (alone and inside a label, before/after RTL and joiner contexts), label and name lengths around 63/253/255, hyphen placements, fuzzing. Distinct = distinct (strictness, outcome, shape).")
ASSUMPTIONS = [ICU, "flags: CheckHyphens=false, CheckBidi=CheckJoiners=true, nontransitional, UseSTD3ASCIIRules=VerifyDnsLength=strict"]
REQUIRED = {"to_ascii_ok": 10000, "to_ascii_fail": 3000, "ascii_lowercase_law": 1000}


def both(m, g, s):
    drive(m, g, "idna", (s, False))
    drive(m, g, "idna", (s, True))


def work(m):
    g = gen.Gen(m.rng)
    for s in shard(m, g.corpus["hosts"]):
        both(m, g, s)
        both(m, g, s.upper())
    for t in shard(m, g.novel_s[:60]):
        for f in (t, "a" + t, t + "a", t + ".com", "a." + t, t.upper(), "xn--" + t):
            both(m, g, f)
    for n in shard(m, sorted(set(list(range(0, 70)) + list(range(120, 135)) + list(range(240, 262)) + [500, 1000, 1023, 1024] + g.novel_len))):
        for u in ("a", "A", "\u00e9", "a.", "-", "_", "\u05d0"):
            s = (u * (n // len(u) + 1))[:n]
            for f in (s, s + ".com", "x." + s, s + ".", s + "." + s, ".".join([s] * 4)):
                both(m, g, f)
    for s in shard(m, W.tokens(3 if not deep(m) else 4, ["a", "A", "-", ".", "xn--", "\u00e9", "_", "\u3002", "1", "\u05d0", "\u00ad", "\u200d", "\u094d"])):
        both(m, g, s)
    top = 0x110000 if deep(m) else 0x3400
    for o in shard(m, range(top)):
        if 0xD800 <= o <= 0xDFFF and o % 64:
            continue
        c = chr(o)
        both(m, g, "a" + c + "b")
        drive(m, g, "idna", (c, bool(o & 1)))
        if o < 0x3400:
            drive(m, g, "idna", ("\u05d0" + c, bool(o & 1)))
    if not deep(m):
        for o in shard(m, range(0x3400, 0x110000, 11)):
            if not 0xD800 <= o <= 0xDFFF:
                drive(m, g, "idna", ("a" + chr(o), m.rng.random() < 0.5))
    for _ in range(N(m, 40000, 600000)):
        s = g.domain()
        drive(m, g, "idna", (s, m.rng.random() < 0.5), s)
