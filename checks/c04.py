"""IP addresses."""
from common import *

ID = "C04"
CASES = {"host": C.host, "ipv4_value": C.ipv4_value, "ipv6_value": C.ipv6_value, "parse": C.parse}
RULE = ("One evaluation parses one candidate IP literal (or serializes one address value and parses it back) and compares with the model. "
        "Workload: grids over IPv4 part syntaxes, all short strings over '0f1:.', all IPv6 token sequences, piece-count/compression grids, all 256 zero patterns, boundary and random values, fuzzing. "
        "Distinct = distinct values, and (kind of host or failure, shape) of strings.")
ASSUMPTIONS = [MODEL]
REQUIRED = {"ipv4_values": 1000, "ipv6_values": 1000, "host_kind_int": 1000, "host_kind_tuple": 1000, "host_fail": 5000}


def work(m):
    g = gen.Gen(m.rng)
    for s in shard(m, W.ipv4_grid()):
        drive(m, g, "host", (s, False))
        if m.rng.random() < 0.08:
            drive(m, g, "parse", ("http://" + s + "/",))
            drive(m, g, "host", (s, True))
    for s in shard(m, W.ipv4_long(g)):
        drive(m, g, "host", (s, m.rng.random() < 0.05))
        if m.rng.random() < 0.1:
            drive(m, g, "parse", (m.rng.choice(("http://%s/", "foo://%s", "file://%s/x", "ws://u@%s:8/")) % s,))
    for s in shard(m, W.ipv6_long(g)):
        drive(m, g, "host", ("[" + s + "]", m.rng.random() < 0.2))
    for s in shard(m, W.ipv6_strings(9 if deep(m) else 7, 6 if deep(m) else 5)):
        drive(m, g, "host", ("[" + s + "]", m.rng.random() < 0.2))
    for s in shard(m, W.ipv6_piece_grid()):
        drive(m, g, "host", ("[" + s + "]", False))
        drive(m, g, "parse", (m.rng.choice(("http://[%s]/", "foo://[%s]", "http://u@[%s]:8/")) % s,))
    for t in shard(m, W.zero_patterns()):
        drive(m, g, "ipv6_value", (t,))
    for n in shard(m, sorted({v for k in range(33) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1) if v < 1 << 32} | set(range(0, 70000, 97)) | set(v for v in g.novel_num if v < 1 << 32))):
        drive(m, g, "ipv4_value", (n,))
    for v in shard(m, sorted(set(list(range(0, 0x10000, 1 if deep(m) else 23)) + [x for x in g.novel_num if x < 65536]))):
        i = m.rng.randrange(8)
        drive(m, g, "ipv6_value", (tuple(v if j == i else 1 for j in range(8)),))
        drive(m, g, "host", ("[%x::%X]" % (v, v), False))
        drive(m, g, "ipv6_value", (tuple(v if j == i else 0 for j in range(8)),))
    for v in shard(m, range(0, 70000, 1 if deep(m) else 37)):
        drive(m, g, "host", (m.rng.choice(("%d.%s", "%s.%d", "1.%d.%s", "%d", "0x%x", "0%o", "1.2.3.%d", "1.%d", "1.2.%d")).replace("%s", "1") % v, False))
    for _ in range(N(m, 40000, 600000)):
        x = m.rng.random()
        if x < 0.30:
            drive(m, g, "host", (g.ipv4(), m.rng.random() < 0.1))
        elif x < 0.65:
            s = "[" + g.ipv6() + "]"
            drive(m, g, "host", (s, m.rng.random() < 0.2))
        elif x < 0.75:
            drive(m, g, "ipv4_value", (m.rng.randrange(1 << 32),))
        elif x < 0.9:
            drive(m, g, "ipv6_value", (tuple(0 if m.rng.random() < 0.5 else m.rng.choice((m.rng.randrange(1, 0x10000), m.rng.randrange(1, 16), 0xFFFF, 0x100)) for _ in range(8)),))
        else:
            drive(m, g, "parse", (g.absolute(),))
