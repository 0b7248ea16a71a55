"""URLSearchParams list semantics."""
from common import *

ID = "C09"
CASES = {"params": B.params, "bad_ctor": B.bad_ctor}
RULE = ("One evaluation constructs a URLSearchParams (from text, pairs, dict, another instance, nothing), applies a history of operations and compares list, lookups, iteration, indexing, serialization and equality with a plain list model after every step. "
        "Workload: all histories of length <=3 over a small operation set, random histories, list sizes across boundaries, all BMP/astral sort orders. Distinct = distinct (operation, sizes before/after, changed, argument shape).")
ASSUMPTIONS = ["model: a list of (name, value) pairs of scalar value strings; sort is stable and by UTF-16 code units", "numbers are converted with str()"]
REQUIRED = {"op_append": 3000, "op_delete": 3000, "op_set": 3000, "op_sort": 1000, "op_has": 1000, "op_get": 1000, "changed": 5000, "ctor_str": 100, "ctor_dict": 100, "ctor_list": 100, "ctor_params": 100}
SMALL = [("append", "a", "1"), ("append", "b", "2"), ("append", "a", "2"), ("set", "a", "3"), ("set", "c", "4"), ("delete", "a"), ("delete", "a", "1"), ("delete", "b", "2"), ("sort",), ("has", "a", "2"), ("get", "a"), ("get_all", "a"), ("copy",), ("delete", "a", ""), ("append", "", ""), ("set", "b", 2), ("has", "a", 1), ("has", "a", None)]
INITS = [("none", None), ("str", "a=1&b=2&a=3"), ("str", "?c=1&a=1&b=1&a=2&b=2"), ("list", [("b", "1"), ("a", "1"), ("b", "2"), ("a", 2)])]


def rand(m, g):
    r = m.rng
    k = r.choice(("none", "str", "str", "list", "tuple", "lists", "dict", "params"))
    if k in ("str", "params"):
        i = r.choice(("", "?")) + g.query()
    elif k == "none":
        i = None
    else:
        i = [(g.number() if k != "dict" and r.random() < 0.05 else g.name(), g.value()) for _ in range(r.choice((0, 1, 2, 3, 5, 9)))]
    ops = []
    for _ in range(r.choice((1, 2, 4, 8))):
        if r.random() < 0.8:
            f, a = g.paramop()
            ops.append((f,) + tuple(a))
        else:
            ops.append(r.choice((("copy",), ("eqlist",), ("probe", g.name(), g.name()))))
    return k, i, ops


def work(m):
    import itertools
    g = gen.Gen(m.rng)
    for w in ("triple", "single", "int", "set"):
        drive(m, g, "bad_ctor", (w,))
    for n in (1, 2, 3) if deep(m) else (1, 2):
        for (k, i), ops in shard(m, itertools.product(INITS, itertools.product(SMALL, repeat=n))):
            drive(m, g, "params", (k, i, list(ops)))
    # sort: code-unit order, stability, sizes
    alpha = ["", "a", "b", "A", "aa", "ab", "\u00e9", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\U0001f308", "\ufb03", "a\U0001f308", "a\uffff", "\u0000", "~", "z", "\ud7ff"]
    for t in shard(m, itertools.product(alpha, repeat=3)):
        drive(m, g, "params", ("list", [(k, i) for i, k in enumerate(t)], [("sort",)]))
    for n in shard(m, sorted(set(list(range(0, 40)) + [63, 64, 65, 100, 128, 200, 256, 257, 500, 1000] + [x for x in g.novel_len if x < 1500]))):
        for _ in range(6):
            pairs = [(m.rng.choice(alpha[: m.rng.choice((2, 4, 19))]), str(i)) for i in range(n)]
            drive(m, g, "params", ("list", pairs, [("sort",), ("delete", "a"), ("append", "b", "z"), ("set", "b", "y"), ("sort",), ("get_all", "A"), ("delete", "", "0")]))
            drive(m, g, "params", ("str", "&".join("%s=%s" % (k if k.isalnum() and k.isascii() else "q", v) for k, v in pairs), [("set", "a", "1"), ("delete", "b"), ("sort",)]))
    for o in shard(m, list(range(0, 0x180)) + [x for x in range(0x180, 0x110000, 9973) if not 0xD800 <= x <= 0xDFFF]):
        c = chr(o)
        drive(m, g, "params", ("none", None, [("append", c, "x" + c), ("append", "a" + c, c), ("probe", c, "a" + c), ("delete", c), ("set", "a" + c, c + c)]))
    for t in shard(m, g.novel_s[:60] + [str(x) for x in g.novel_num]):
        for f in (t, "a" + t, t + "a"):
            drive(m, g, "params", ("none", None, [("append", f, "1"), ("append", "a", f), ("append", f, f), ("probe", f), ("set", f, f), ("sort",), ("delete", f, f), ("delete", "a", f)]))
            drive(m, g, "params", ("str", f + "=" + f + "&" + f, [("get", f), ("sort",), ("copy",)]))
    for n in shard(m, sorted(set(gen.LENGTHS + gen.BIGLEN + g.novel_len))):
        drive(m, g, "params", ("none", None, [("append", "n" * n, "v" * n), ("append", "n" * n, "w"), ("probe", "n" * n), ("set", "n" * n, "x"), ("delete", "n" * n)]))
    # names and values that agree up to a length and differ behind it
    for n in shard(m, sorted(set(list(range(1, 40)) + gen.LENGTHS + [127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025] + [x for x in g.novel_len if x < 3000]))):
        for u in ("a", "\u00e9", "\U0001f308"):
            p = u * n
            ext = [p + e for e in ("b", "a", "", "\uffff", "\U0001f308", "aa", "A", "\x00")]
            m.rng.shuffle(ext)
            drive(m, g, "params", ("list", [(x, str(i)) for i, x in enumerate(ext)], [("sort",), ("probe",) + tuple(ext)]))
            drive(m, g, "params", ("list", [(x, str(i)) for i, x in enumerate(ext + ext[::-1])], [("delete", ext[0]), ("set", ext[1], "z"), ("get", ext[2]), ("get_all", ext[3]), ("has", ext[0]), ("sort",)]))
            drive(m, g, "params", ("list", [("k", x) for x in ext + ext], [("delete", "k", ext[0]), ("has", "k", ext[0]), ("has", "k", ext[1]), ("delete", "k", ext[2]), ("eqlist",)]))
    for _ in range(N(m, 300, 5000)):
        v, w = g.number(), g.number()
        drive(m, g, "params", ("none", None, [("append", "a", v), ("append", "b", w), ("has", "a", v), ("has", "a", str(v)), ("has", "b", v), ("set", "c", w), ("set", "a", w), ("delete", "b", v), ("delete", "b", w)]))
        for k in ("list", "tuple", "lists", "dict"):
            drive(m, g, "params", (k, [("a", v), ("b", w), ("a", w)], [("delete", "a", v), ("set", "a", v)]))
    for _ in range(N(m, 14000, 250000)):
        drive(m, g, "params", rand(m, g))
