"""Workloads shared by the checks.  Every function drives m.case(); systematic
parts are sharded over the workers, random parts use the worker's PRNG."""
import itertools

import gen
import refurl as M

TOK = ["/", "\\", ":", "?", "#", "@", ".", "..", "C|", "a", "%2e", "[", "]", " ", "\t", "|", "\u00e9", "80", "%"]
PREFIX = ["http:", "http://", "http://h", "https://u", "file:", "file://", "file:///", "foo:", "foo:/", "foo://", "foo://h", "ws:", ""]
REFTOK = ["/", "\\", ":", "?", "#", "..", ".", "C|", "C:", "a", "//", "file:", "http:", "h", "%2e%2e", "@", "[", "|", " ", "\n"]
KEYBASES = ["http://u:p@h:81/a/b/c?q#f", "file:///a/b", "file:///C:/a/b", "file://h/C:/x", "foo://h/a/b?q", "foo:/a/b", "data:text/plain,x", "http://h", "foo://h", "file:///", "file:///C:?q", "foo:/.//p", "foo:///a"]

COMPONENT = {
    "path": "http://h/%s", "nspath": "foo://h/%s", "opaque": "foo:%s", "query": "http://h/?%s", "nsquery": "foo://h?%s",
    "fragment": "http://h/#%s", "user": "http://%s@h/", "password": "http://u:%s@h/", "filepath": "file:///%s", "hostpath": "foo:/%s",
    "nsuser": "foo://%s:@h/", "opfrag": "foo:o#%s", "opquery": "foo:o?%s",
}
HOSTLIKE = {"host": "http://%s/", "nshost": "foo://%s/", "filehost": "file://%s/x", "port": "http://h:%s/", "nsport": "foo://h:%s", "scheme": "%s://h/x"}
ALL = dict(COMPONENT, **HOSTLIKE)


def shard(m, it):
    for i, x in enumerate(it):
        if i % m.nshard == m.shard:
            yield x


def drive(m, g, kind, args, keep=None):
    n = len(m.features)
    fresh = m.case(kind, *args)
    if keep is not None and (fresh or (len(m.features) > n and m.rng.random() < 0.05)):
        g.keep(keep)
    if len(m.samples) < 4 and m.evaluations % 1009 == 7:
        s = repr((kind,) + args)
        m.samples.append(s if len(s) < 300 else s[:300] + "...")


def tokens(maxn, toks=TOK):
    for n in range(maxn + 1):
        for t in itertools.product(toks, repeat=n):
            yield "".join(t)


def abs_strings(maxn):
    for p in PREFIX:
        for t in tokens(maxn):
            yield p + t


def low_points(templates, hi=0x300):
    """every code point below hi, alone and inside, in every component"""
    for k, t in templates.items():
        for o in range(hi):
            for f in ("%s", "a%sb"):
                if k in ("port", "nsport") and f == "a%sb":
                    f = "8%s0"
                yield t % (f % chr(o))


def batches(size=64, lo=0x80, hi=0x110000):
    for a in range(lo, hi, size):
        s = "".join(chr(o) for o in range(a, min(a + size, hi)) if not 0xD800 <= o <= 0xDFFF)
        if s:
            yield s


def high_points(m, templates, every):
    """all scalar values >= 0x80, 64 at a time; in each component, or (every
    = False) in a rotating one"""
    ks = sorted(templates)
    for i, s in shard(m, enumerate(batches())):
        for j, k in enumerate(ks):
            if every or (i + j) % len(ks) == 0:
                yield templates[k] % s


def long_strings(m, g, templates):
    """component lengths across the boundaries"""
    lens = sorted(set(gen.LENGTHS[5:] + gen.BIGLEN + [70, 100, 200, 300, 400, 700, 1500, 3000, 65535, 65536, 65537] + g.novel_len))
    i = 0
    for k in sorted(templates):
        for n in lens:
            if n > 10000 and k not in ("path", "query", "port", "host", "opaque"):
                continue
            for unit in ("a", "\u00e9", "0", "%41", "a/", "../", "a.", " ", "a=b&", "1:", "~") if n < 3000 else ("a", "0", "a/"):
                i += 1
                if i % m.nshard != m.shard:
                    continue
                if k.endswith("host") and n > 1100 and unit != "0":
                    continue
                s = (unit * (n // len(unit) + 1))[:n]
                yield templates[k] % s
                if n < 1000:
                    yield templates[k] % ("x" + s + "\u00e9y")


def novel(m, g, templates=ALL):
    """strings and numbers that the current source has and the pinned one has
    not, in every component"""
    ns, ni = g.novel_s[:80], g.novel_i[:40]
    out = []
    for t in ns:
        forms = [t, "a" + t, t + "a", "a" + t + "b", t + t, t.upper(), t.lower(), "/" + t + "/", "." + t, t + ".", t + "." + "a", "a." + t, t + "=1", "a=" + t, "&" + t, "%" + t]
        for k in sorted(templates):
            for f in forms:
                out.append(templates[k] % f)
        out += [t, t + ":", t + "://h/p?q#f", "http://h/" + t, t + ":x", t + "http://h/"]
    # two of them together
    for t, u in [(t, u) for t in ns[:12] for u in ns[:12] if t != u]:
        for k in sorted(templates):
            out += [templates[k] % (t + u), templates[k] % (t + "x" + u)]
    for n in ni:
        for d in (-2, -1, 0, 1, 2):
            v = n + d
            if v < 0:
                continue
            for k in sorted(templates):
                out += [templates[k] % str(v), templates[k] % ("0x%x" % v), templates[k] % ("0%o" % v)]
            out += ["http://h:%d/" % v, "foo://h:%d" % v, "http://%d/" % v, "http://1.2.3.%d/" % v, "http://%d.1.1.1/" % v, "http://[::%x]/" % v, "http://[%x::1]/" % v]
            if v <= 9000:
                for k in sorted(templates):
                    if not k.endswith("host") or v < 1200:
                        out.append(templates[k] % ("a" * v))
                        out.append(templates[k] % ("\u00e9" * v))
                out += ["http://h/" + "/".join(["a"] * v), "http://h/" + "../" * v + "x", "http://h/" + "a/" * v + ".." , "http://" + ".".join(["a"] * min(v, 400)) + "/", "foo:" + "a" * v + " ",
                        "http://h/?" + "&".join(["a=1"] * v), "http://h/" + " " * v + "a", "http://h/a" + " " * v, "http://" + "u" * v + "@h/", "http://h/" + "%41" * v]
    for x in shard(m, out):
        yield x


def corpus_urls(m, g):
    return shard(m, g.corpus["urls"])


IPV4TOK = ["0", "1", "255", "256", "0x", "0xff", "0x100", "08", "010", "0377", "0400", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "", "a", "1_0", "+1", "0x7f000001", "\uff11", "00", "0X1F"]


def ipv4_grid(maxn=4):
    for n in range(1, 4):
        for t in itertools.product(IPV4TOK, repeat=n):
            yield ".".join(t)
            yield ".".join(t) + "."
    small = ["0", "1", "255", "256", "0xff", "08", "0377", "", "65536", "a", "0x", "-0"]
    for t in itertools.product(small, repeat=4):
        yield ".".join(t)
    for t in itertools.product(["0", "1", "256"], repeat=5):
        yield ".".join(t)


def ipv4_long(g):
    """parts with many digits: padding, overflow, very long"""
    ks = sorted(set(list(range(1, 24)) + [31, 32, 33, 39, 40, 64, 65, 100, 255, 256, 1000, 4299, 4300, 4301, 5000] + [x for x in g.novel_len if x < 6000]))
    for k in ks:
        z = "0" * k
        for part in (z, z + "1", "1" + z, "9" * k, "1" * k, "256" + z, "7" * k, "0x" + z + "1", "0x" + "f" * k, "0x1" + z, "0" + "7" * k, "1" + z + "1", "4294967296" + z, "0x1" + z + "7f", z + "400", "-" + "1" * k, "+" + "1" * k, "1" * k + "_1"):
            for f in ("%s.1.1.1", "1.%s.1.1", "1.1.%s.1", "1.1.1.%s", "%s", "1.%s", "1.1.%s", "%s.1", "%s.", "1.1.1.%s."):
                yield f % part


def ipv6_long(g):
    ks = sorted(set(list(range(1, 12)) + [15, 16, 17, 31, 32, 33, 64, 100, 300] + [x for x in g.novel_len if x < 3000]))
    for k in ks:
        z = "0" * k
        for part in (z, z + "1", "1" + z, "f" * k, z + "f", "F" * k):
            for f in ("%s::", "::%s", "1:2:3:%s:5:6:7:8", "1:2:3:4:5:6:7:%s", "1::%s:8", "::1.2.3.%s", "::%s.2.3.4", "::ffff:1.%s.3.4", "%s", "%s:%s:%s:%s:%s:%s:%s:%s"):
                yield f % ((part,) * f.count("%s"))


IPV6TOK = ["0", "1", "ffff", ":", "::", ".", "1.2.3.4", "12345", "g"]


def ipv6_strings(maxchars, maxtok):
    for n in range(maxchars + 1):
        for t in itertools.product("0f1:.", repeat=n):
            yield "".join(t)
    for n in range(1, maxtok + 1):
        for t in itertools.product(IPV6TOK, repeat=n):
            yield "".join(t)


def ipv6_piece_grid():
    """all pieces counts 1..9 with :: at every place (or two places), with and
    without a trailing IPv4 address"""
    for n in range(1, 10):
        ps = [str(i + 1) for i in range(n)]
        for tail in ("", "1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3", "256.1.1.1", "01.2.3.4", "1.2.3.4.5"):
            l = ps[:] if not tail else ps[:-1] + [tail]
            for gap in range(-1, n + 1):
                for gap2 in [-1] + list(range(gap, n + 1)):
                    s = ""
                    for i, p in enumerate(l):
                        if i == gap or i == gap2 and gap2 >= 0:
                            s += "::"
                        elif i:
                            s += ":"
                        s += p
                    if n in (gap, gap2):
                        s += "::"
                    yield s


def zero_patterns():
    vals = (1, 0xABCD, 0xFFFF, 0x10, 0x100)
    for mask in range(256):
        for k, v in enumerate(vals):
            yield tuple(0 if mask >> i & 1 else (v + i * k) & 0xFFFF or 1 for i in range(8))


def nosurr(f):
    while True:
        s = f()
        if not gen.SURR_RE.search(s):
            return s


IP6SAMPLES = ["::", "::1", "1::", "1:2:3:4:5:6:7:8", "1::8", "::ffff:1.2.3.4", "0:0::", "a:b::c:d", "1.2.3.4", "1", "", "g", ":", "1:2:3:4:5:6:7", "::1%25", "::%31", "%3A%3A1", "\uff1a\uff1a1", "::FFFF", "0001::0"]


def bracketed(ip):
    """spellings and misspellings of brackets around an address"""
    out = ["[%s]", "%s]", "[%s", "[[%s]", "[%s]]", "[[%s]]", "x%s]", "[%sx", "x[%s]", "[%s]x", "1%s]", ".%s]", "(%s]", "%%5B%s%%5D", "%%5B%s]", "[%s%%5D", "[%s].", "[%s]:", "[ %s]", "[%s ]", "[]%s", "%s[]", "[%s][%s]", "[%s]%%20", "\u3010%s\u3011", "[\u00ad%s]", "[%s\t]", "[%s]\t"]
    return [f % ((ip,) * (f.replace("%%", "").count("%s"))) for f in out]


RUNS = ["/", "a/", "../", "./", "a/../", "//", "%2e%2e/", "\\", "C|/", "a", "\u00e9", "%", "@", ":", "a:", "a@", ".", "a.", "1.", "0", " ", "\t", "?", "#", "&", "=", ";", "'", "[", "]", "|", "%41", "\U0001f308"]
TAILS = ["", "..", "/..", "/../..", "a/..", "/.", ".", "/./", "%2E%2e", "?a", "#a", "?#", "@h", "@h/..", ":80", ":80/..", "]", "]/", "\\..", "/C|/..", "C|", " ", " ?", "/../../../x", "%zz", "\u00e9"]
RUNFRAMES = ["http://h/%s", "http://h%s", "http://%s", "foo://h/%s", "foo:/%s", "foo:%s", "file:///%s", "file:///C:/%s", "file:%s", "http://u:p@h/?%s", "http://h/#%s", "http:%s", "ws://%s@h", "%s", "blob:http://h/%s"]


def run_lengths(g, big=True):
    return sorted({3, 17, 64, 129, 257, 600, 1025} | ({2100, 4097} if big else set()) | {x for x in g.novel_len if 2 < x < 3000})


def run_strings(m, g, dens=1.0):
    """long runs of one unit followed by a tail that makes the parser look
    back at what it has built"""
    r = m.rng
    for f, u, t in shard(m, itertools.product(RUNFRAMES, RUNS, TAILS)):
        if r.random() < dens:
            n = r.choice(run_lengths(g))
            if f in ("http://%s", "http://h%s", "ws://%s@h") and n > 1100:
                n = 1025
            yield f % (u * n + t)


def run_pairs(m, g, dens=1.0):
    """(reference, base) with a long base path and a short or long reference"""
    r = m.rng
    refs = ["", "x", ".", "..", "../..", "../x", "./", "/", "/x", "//g", "?y", "#z", "../" * 50, "../" * 3000, "a/" * 500 + "..", "C|", "/C|/x", "file:x", "http:x", "\\x", "..\\..", "%2e%2e/", ";x"]
    for f, u in shard(m, itertools.product(RUNFRAMES[:9] + ["http://h/?%s", "foo://h/#%s"], RUNS)):
        for ref in refs:
            if r.random() < dens:
                b = f % (u * min(r.choice(run_lengths(g)), 1100 if "://%s" in f or "h%s" in f else 5000) + r.choice(TAILS))
                if M_ok(b):
                    yield ref, b


def M_ok(b):
    try:
        M.parse_url(b)
        return True
    except M.Fail:
        return False
