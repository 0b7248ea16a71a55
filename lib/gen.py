"""Workload generation: hostile, structured and random inputs.  All choices
come from the worker's seeded PRNG.  The dictionary is extended with literals
harvested from the current source of the code under test (as fuzzers do), so
that thresholds and special tokens in the code become reachable; literals that
are not in the pinned source get extra weight."""
import ast
import json
import os
import re
from collections import Counter

import harness

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(os.path.dirname(HERE), "data")


def harvest():
    """(strings, ints) literals of the code under test, docs and messages aside."""
    strs, ints = Counter(), Counter()
    for fn in sorted(os.listdir(harness.PKG)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(harness.PKG, fn), encoding="utf-8") as f:
            tree = ast.parse(f.read())
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                    docs.add(id(node.body[0].value))
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant) or id(node) in docs:
                continue
            v = node.value
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                if 0 <= v <= 1 << 34:
                    ints[v] += 1
            elif isinstance(v, bytes):
                v = v.decode("latin-1")
                strs[v] += 1
            elif isinstance(v, str) and 0 < len(v) <= 64 and " is " not in v and ": " not in v:
                strs[v] += 1
        _folded(tree, strs, ints)
    return strs, ints


def _folded(tree, strs, ints):
    """constant expressions (1 << 10, "a" * 3, ...)"""
    ok = (ast.BinOp, ast.UnaryOp, ast.Constant, ast.operator, ast.unaryop)
    for node in ast.walk(tree):
        if isinstance(node, (ast.BinOp, ast.UnaryOp)) and all(isinstance(x, ok) for x in ast.walk(node)) and len(list(ast.walk(node))) < 30:
            if any(isinstance(x, ast.Pow) for x in ast.walk(node)) and any(isinstance(x, ast.Constant) and isinstance(x.value, int) and x.value > 64 for x in ast.walk(node)):
                continue
            try:
                v = eval(compile(ast.Expression(node), "const", "eval"), {"__builtins__": {}})
            except Exception:
                continue
            if isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 1 << 34:
                ints[v] += 1
            elif isinstance(v, str) and 0 < len(v) <= 64:
                strs[v] += 1


def matches(pattern, rng, n=6):
    """some strings that a regular expression of the source matches"""
    try:
        import re._parser as sp
        tree = sp.parse(pattern)
    except Exception:
        return []
    out = []
    for _ in range(n):
        try:
            out.append(_match(tree, rng, {}))
        except Exception:
            return out
    return [x for x in out if 0 < len(x) <= 400]


def _match(tree, rng, groups):
    o = ""
    for op, a in tree:
        op = str(op)
        if op == "LITERAL":
            o += chr(a)
        elif op == "NOT_LITERAL":
            o += rng.choice([c for c in "ab1%/" if ord(c) != a])
        elif op == "ANY":
            o += rng.choice("ab1%/\u00e9")
        elif op == "IN":
            o += _class(a, rng)
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = a
            k = rng.choice((lo, lo, lo + 1, min(int(hi), lo + 3), min(int(hi), lo + 20)))
            for _ in range(min(k, int(hi))):
                o += _match(sub, rng, groups)
        elif op == "SUBPATTERN":
            x = _match(a[3], rng, groups)
            groups[a[0]] = x
            o += x
        elif op == "GROUPREF":
            o += groups.get(a, "")
        elif op == "BRANCH":
            o += _match(rng.choice(a[1]), rng, groups)
        elif op == "ATOMIC_GROUP":
            o += _match(a, rng, groups)
    return o


def _class(items, rng):
    neg, cs = False, []
    for op, a in items:
        op = str(op)
        if op == "NEGATE":
            neg = True
        elif op == "LITERAL":
            cs.append(chr(a))
        elif op == "RANGE":
            cs += [chr(a[0]), chr(a[1]), chr(rng.randint(a[0], a[1]))]
        elif op == "CATEGORY":
            cs += {"CATEGORY_DIGIT": "0917", "CATEGORY_SPACE": " \t\u3000", "CATEGORY_WORD": "aZ_9\u00e9", "CATEGORY_NOT_DIGIT": "a.", "CATEGORY_NOT_SPACE": "a.", "CATEGORY_NOT_WORD": ".-%"}[str(a)]
    if neg:
        cs = [c for c in "aZ0-._~%:/?#@!$&'()*+,;= \u00e9|\\" if c not in cs]
    c = rng.choice(cs)
    return c if not 0xD800 <= ord(c) <= 0xDFFF else "\ufffd"


_dict = None


def dictionary():
    """(strings, ints, novel strings, novel ints)"""
    global _dict
    if _dict is None:
        s, i = harvest()
        try:
            with open(os.path.join(DATA, "baseline_literals.json")) as f:
                b = json.load(f)
            bs, bi = Counter(dict(b["strings"])), Counter(dict(b["ints"]))
        except OSError:
            bs, bi = s, i
        _dict = (sorted(s), sorted(i), sorted(s - bs), sorted(i - bi))
    return _dict


_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(DATA, "corpus.json")) as f:
            _corpus = json.load(f)
    return _corpus


SPECIALS = ["http", "https", "ws", "wss", "ftp", "file"]
NONSPECIAL = ["foo", "a", "data", "blob", "mailto", "javascript", "about", "non-special", "web+demo",
              "view-source", "urn", "tel", "h", "htt", "httpx", "http1", "wsss", "w", "fil", "files", "ftps",
              "gopher", "a1+-.", "z9", "git+ssh", "ssh", "stun", "localhost", "urlstd", "x.y", "c"]
STRUCT = list("/:?#@[]\\.%&=;+|~ ") + ["//", "..", "%2e", "%2E", "/.", "/..", "\\\\", "///", "%2f", "%5c", "C|", "C:", "c:", "%25"]
DRIVES = ["C:", "C|", "c:", "d|", "Z:", "CC:", "1:", "C", "C::", "C:|", "C%3A", "C%7C", "é|", "|", ":|", "a|", "c|"]
DOTS = [".", "..", "%2e", "%2E", ".%2e", "%2E.", "%2e%2E", "%2e%2e", "...", "%2e%2e%2e", ".%2E.", "%2", "%2ea", "%252e", ". ", " .", "\uff0e", "..;"]
UNI = ["\u00df", "\u03c2", "\u00e9", "e\u0301", "\u200d", "\u200c", "\u00ad", "\u3002", "\uff0e", "\uff61", "\uff10", "\uff21",
       "\u0130", "\u0131", "\u212a", "\ufb03", "\u05d0", "\u0627", "\u0660", "\u06f0", "\u0301", "\u2260", "\u226e", "\ufffd", "\ufdd0", "\ufffe",
       "\uffff", "\U0001f308", "\U0001f600", "\U0010ffff", "\U0010fffd", "\U00020000", "\U0001fffe", "\u00a0", "\u0080", "\u009f", "\u2028", "\u3000", "\ufeff", "\u0085",
       "\ue000", "\u0378", "\u115f", "\u2100", "\u2488", "\u33c2", "\u1e9e", "\uff3c", "\uff0f", "\uff05", "\uff1a", "\u2025", "\u2024", "\u0fff"]
SURR = ["\ud800", "\udfff", "\ud83c\udf08", "\udf08\ud83c", "\ud83c"]
LENGTHS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257]
BIGLEN = [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4299, 4300, 4301, 5000, 8191, 8192]
IPV4PART = ["0", "1", "127", "255", "256", "10", "99", "100", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "4294967297",
            "0x0", "0xff", "0xFF", "0x100", "0x", "0X", "0xg", "0x7f000001", "0xffffffff", "0x100000000", "00", "01", "08", "09", "010", "0377", "0400", "037777777777", "040000000000", "0x1F",
            "1_0", "+1", "-1", "-0", " 1", "1e1", "0b1", "0o7", "0x0x1", "00o7", "0_1", "1.", "", "a", "1a", "a1", "\uff11", "%31", "1%2e", "\u0661", "\u00b2", "0x_1", "1l", "0XABCDEF", "0x00000001", "000000001", "0.", "00x1", "0xdeadbeef", "192", "168"]
HEXPIECE = ["0", "1", "f", "F", "ff", "abc", "ABCD", "ffff", "0000", "0001", "00001", "12345", "g", "10", "8", "dead", "BEEF", "0db8", "2001", "fe80", "x1", "+1", "1_1", ""]
PORTS = ["", "0", "00", "1", "21", "80", "081", "443", "8080", "65535", "65536", "65537", "99999", "100000", "0080", "00443", "000021", "8", "4430", "1000000000000", "80a", "a", " 80", "-1", "+80", "8_0", "\uff18", "0x50", "4294967376", "65616", "70", "22"]
LABELS = ["example", "EXAMPLE", "com", "org", "localhost", "LocalHost", "a", "xn--", "xn--a", "xn--zca", "xn--fa-hia", "xn--nxasmm1c", "xn--og8h", "XN--ZCA", "xn--a-yoc", "xn--ASCII-", "xn--abcd-5n9aqdi",
          "fa\u00df", "b\u00fccher", "B\u00dcCHER", "\u4f8b\u3048", "ex\u00adample", "\u00ad", "-a", "a-", "--", "a--b", "ab--c", "_dmarc", "a_b", "foo*", "a!b", "a'b", "a$b", "a&b", "a(b)", "a,b", "a=b", "a~b", "a{b}", "a`b", "a\"b",
          "\u05d0\u05d1", "\u0627\u0628", "a\u05d0", "\u05d01", "1\u05d0", "\u200d", "a\u200db", "\u0915\u094d\u200d", "\u0301a", "\uff45\uff58", "%65xample", "%C3%9F", "%E2%98%83", "%ff", "%00", "%2e", "%25", "%", "a%20b", "\U0001f308",
          "1", "0x1", "09", "1a", "256", "w3c", "a<b", "a>b", "a^b", "a|b", "a b", "a%3Ab", "a%2Fb", "\u2488com", "\ufb03", "\u1e9e", "\u0130", "h\u0442tp", "x" * 63, "x" * 64, "\u00e9" * 60]
TEXTS = ["", "a", "b", "foo", "bar", "a b", "q=1", "a=1&b=2", "%41", "%", "%4", "%zz", "%%", "%e2%98", "\u00e9", "'", "\"", "<>", "`{}", "^", "|", "~", "!$&'()*+,;=", "a\tb", "a\nb", "\x00", "\x1f", "\x7f", "\x80", " ", "  ", "a ", " a", "C|/x", "//x", "/.//p", "..", "javascript:alert(1)", "[1]", "@", "a@b:c", "+", "%2B", "%20", "x;y", "a=b=c", "&&", "=", "&=&"]


SURR_RE = re.compile("[\ud800-\udfff]")
TABNL_RE = re.compile("[\t\n\r]")


def clean(s):
    """Surrogates next to removed tabs/newlines are outside the properties'
    domain (a str with surrogates is not a scalar value string; whether pairs
    form before or after tab removal is unspecified)."""
    if isinstance(s, str) and SURR_RE.search(s) and TABNL_RE.search(s):
        return SURR_RE.sub("\ufffd", s)
    return s


def cleaned(f):
    def g(self, *a):
        return clean(f(self, *a))
    g.__name__ = f.__name__
    return g


class Gen:
    def __init__(self, rng):
        self.r = rng
        s, i, ns, ni = dictionary()
        self.dict_s = [x for x in s if len(x) <= 24]
        self.dict_i = i
        gen = []
        for x in ns:
            if re.search(r"[\[\\(*+?{|^$]", x):
                gen += matches(x, rng)
        self.novel_s, self.novel_i = sorted(set(ns[:60] + gen[:60])), ni
        self.lengths = LENGTHS + [x + d for x in i if 8 < x <= 300 for d in (-1, 0, 1)]
        self.novel_len = sorted({max(0, x + d) for x in ni if x <= 9000 for d in (-2, -1, 0, 1, 2)})
        self.novel_num = sorted({max(0, x + d) for x in ni for d in (-1, 0, 1)})
        self.corpus = corpus()
        self.pool = []  # inputs that reached new code / new model behaviour

    # ---- primitives
    def length(self, big=0.02):
        r = self.r
        if self.novel_len and r.random() < 0.3:
            n = r.choice(self.novel_len)
            if n <= 300 or r.random() < 0.1:
                return n
        x = r.random()
        if x < big:
            return r.choice(BIGLEN)
        if x < 0.15:
            return r.choice(self.lengths)
        return r.randrange(0, 12)

    def char(self):
        r = self.r
        x = r.random()
        if x < 0.30:
            return r.choice("abcxyzABCXYZ0123456789")
        if x < 0.62:
            return chr(r.randrange(0x20, 0x7F))
        if x < 0.72:
            return r.choice("/:?#@[]\\.%&=;+|")
        if x < 0.77:
            return chr(r.randrange(0, 0x21))
        if x < 0.86:
            return r.choice(UNI)
        if x < 0.90:
            return "%%%02x" % r.randrange(256) if r.random() < 0.5 else "%%%02X" % r.randrange(256)
        if x < 0.93:
            return chr(r.randrange(0x7F, 0x300))
        if x < 0.955:
            o = r.randrange(0x300, 0x10000)
            return chr(o) if not 0xD800 <= o <= 0xDFFF else "\ufffd"
        if x < 0.97:
            return chr(r.randrange(0x10000, 0x110000))
        if x < 0.975:
            return r.choice(SURR)
        return self.token()

    def token(self):
        r = self.r
        if self.novel_s and r.random() < 0.4:
            return r.choice(self.novel_s)
        x = r.random()
        if x < 0.4:
            return r.choice(self.dict_s)
        if x < 0.6:
            return str(self.num())
        return r.choice(STRUCT)

    def num(self):
        r = self.r
        if self.novel_num and r.random() < 0.4:
            return r.choice(self.novel_num)
        return r.choice((0, 1, 2, 7, 8, 21, 80, 127, 128, 255, 256, 443, 65535, 65536, 2**24, 2**31, 2**32 - 1, 2**32, r.randrange(300), r.randrange(70000)))

    def text(self, maxbig=0.01):
        r = self.r
        x = r.random()
        if x < 0.35:
            return r.choice(TEXTS)
        if x < 0.42:
            return self.token()
        if x < 0.50:
            return (self.char() or "a") * self.length(maxbig)
        return "".join(self.char() for _ in range(self.length(maxbig)))

    def cased(self, s):
        r = self.r
        x = r.random()
        if x < 0.6:
            return s
        if x < 0.75:
            return s.upper()
        if x < 0.9:
            return "".join(c.upper() if r.random() < 0.5 else c for c in s)
        return s.title()

    # ---- components
    def scheme(self):
        r = self.r
        x = r.random()
        if x < 0.55:
            return self.cased(r.choice(SPECIALS))
        if x < 0.88:
            return self.cased(r.choice(NONSPECIAL))
        if x < 0.92:
            return self.cased(self.token())
        return r.choice("abcXYZ1+-.") + "".join(r.choice("abzAZ019+-._ \u00e9") for _ in range(r.randrange(0, 6)))

    def ipv4(self):
        r = self.r
        n = r.choice((1, 1, 2, 3, 4, 4, 4, 4, 5))
        p = []
        for _ in range(n):
            x = r.random()
            if x < 0.5:
                p.append(r.choice(IPV4PART))
            else:
                v = self.num()
                f = r.randrange(5)
                p.append(str(v) if f < 3 else ("0x%x" % v if f == 3 else "0%o" % v))
        s = ".".join(p)
        x = r.random()
        if x < 0.1:
            s += "."
        elif x < 0.13:
            s += ".."
        elif x < 0.16:
            s = "." + s
        elif x < 0.2:
            s = s.replace(".", r.choice(("\u3002", "\uff0e", "%2e", "..")), 1)
        elif x < 0.25:
            s = r.choice(LABELS) + "." + s
        elif x < 0.27:
            s = s.translate({0x30 + i: 0xFF10 + i for i in range(10)})
        return s

    def ipv6(self):
        r = self.r
        n = r.choice((1, 2, 3, 5, 6, 7, 7, 8, 8, 8, 9))
        p = [r.choice(HEXPIECE[:16]) if r.random() < 0.9 else r.choice(HEXPIECE) for _ in range(n)]
        if r.random() < 0.35:
            for i in range(len(p)):
                if r.random() < 0.6:
                    p[i] = "0"
        if r.random() < 0.25:
            q = [r.choice(("0", "1", "10", "127", "255", "256", "01", "", "a", "999", "1000", "+1")) if r.random() < 0.4 else str(r.randrange(256))
                 for _ in range(r.choice((2, 3, 4, 4, 4, 4, 5)))]
            p[-1] = ".".join(q)
            if r.random() < 0.25:
                p.append(r.choice(HEXPIECE))
        s = ":".join(p)
        for _ in range(r.choice((0, 0, 1, 1, 1, 2))):
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(("::", "::", ":", ":::")) + s[i:]
        x = r.random()
        if x < 0.03:
            s += r.choice(("%25eth0", "%eth0", "]", "[", " ", "\t", "/64"))
        if x > 0.97:
            s = self.mutate(s)
        return s

    def domain(self):
        r = self.r
        x = r.random()
        if x < 0.55:
            s = ".".join(r.choice(LABELS) if r.random() < 0.6 else r.choice(LABELS[:7]) for _ in range(r.choice((1, 1, 2, 2, 3))))
        elif x < 0.65:
            s = r.choice(self.corpus["hosts"])
        elif x < 0.75:
            s = ".".join("".join(self.char() for _ in range(r.randrange(0, 5))) for _ in range(r.choice((1, 2, 3))))
        elif x < 0.85:
            n = self.length(0.01)
            s = r.choice("abz1\u00e9-") * n + r.choice(("", ".com", ".", "a"))
        elif x < 0.92:
            s = ".".join(["a"] * r.choice((3, 5, 60, 126, 127, 128, 130)))
        else:
            s = self.text()
        y = r.random()
        if y < 0.08:
            s += r.choice((".", "..", "\u3002"))
        elif y < 0.1:
            s = "." + s
        elif y < 0.14:
            s = "".join("%%%02X" % ord(c) if ord(c) < 128 and r.random() < 0.4 else c for c in s)
        return s

    @cleaned
    def host(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            return r.choice(("h", "example.com", "localhost", "EXAMPLE.org", "a.b.c", "x", "foo", "sub.example.net."))
        if x < 0.5:
            return self.ipv4()
        if x < 0.66:
            s = self.ipv6()
            y = r.random()
            if y < 0.9:
                return "[" + s + "]"
            return r.choice(("[" + s, s + "]", "[[" + s + "]]", "[" + s + "]x", "x[" + s + "]", s))
        if x < 0.95:
            return self.domain()
        if x < 0.98:
            return r.choice(DRIVES)
        return ""

    def userinfo(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.choice(("u@", "u:p@", ":p@", "u:@", ":@", "@", "u:p:q@", "a@b@", "a:b@c:d@", "%40@", "u%3a@", "@@", "::@", "u:p@@"))
        return self.text() + r.choice(("", ":" + self.text())) + "@"

    def port(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return r.choice(PORTS)
        if x < 0.85:
            return str(self.num())
        if x < 0.93:
            return "0" * self.length(0.2) + str(self.num())
        return r.choice("0123456789") * self.length(0.2)

    def seg(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            return r.choice(DOTS)
        if x < 0.4:
            return r.choice(DRIVES)
        if x < 0.7:
            return r.choice(TEXTS)
        return self.text()

    def path(self):
        r = self.r
        n = r.choice((0, 1, 1, 2, 2, 3, 4, 6))
        if r.random() < 0.04:
            n = min(self.length(0), 300)
        sep = r.choice(("/", "/", "/", "/", "\\", "//", "/\\"))
        return r.choice(("", "/", "/", "/", "//", "\\", "/./", "/..")) + sep.join(self.seg() for _ in range(n)) + r.choice(("", "", "/", sep))

    def query(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return "&".join(r.choice(TEXTS) + r.choice(("", "=", "=" + r.choice(TEXTS))) for _ in range(r.randrange(0, 5)))
        return self.text() + (self.text() if r.random() < 0.3 else "")

    @cleaned
    def absolute(self):
        r = self.r
        s = self.scheme() + r.choice((":",) * 12 + ("", "::", ";"))
        x = r.random()
        if x < 0.72:
            s += r.choice(("//",) * 10 + ("/", "", "///", "\\\\", "\\/", "/\\", "////"))
            if r.random() < 0.25:
                s += self.userinfo()
            s += self.host()
            if r.random() < 0.3:
                s += ":" + self.port()
            s += r.choice(("/", "/", "/", "", "\\")) if r.random() < 0.6 else ""
        elif x < 0.8:
            s += "/" + r.choice(("", ".", "./", "..", "..//", ".//", "/"))
        s += self.path() if r.random() < 0.7 else ""
        if r.random() < 0.35:
            s += "?" + self.query()
        if r.random() < 0.3:
            s += "#" + self.text()
        return self.noise(s)

    @cleaned
    def relative(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            s = r.choice(("", "#", "?", "/", "//", "\\", ".", "..", "?#", "#?", "///", "/..", "../..", "//h", "C|", "C:", "/C:/", "/C|", "C|/..", "//C|/x", "C:/../a", "file:", "http:", "http:a", "https:/a", "http://", "file:c:\\x", "file:/", "/./", "foo:", "a:b", "|", ":", "c:?", "C|#f", "C|x"))
        elif x < 0.3:
            s = r.choice(("//", "\\\\", "/\\", "///", "/")) + (self.userinfo() if r.random() < 0.2 else "") + self.host() + r.choice(("", ":" + self.port())) + self.path()
        elif x < 0.45:
            s = r.choice(SPECIALS) + ":" + r.choice(("", "/", "//", "\\")) + self.path()
        elif x < 0.85:
            s = self.path()
        else:
            s = self.text()
        if r.random() < 0.3:
            s += "?" + self.query()
        if r.random() < 0.25:
            s += "#" + self.text()
        return self.noise(s)

    BASES = ["http://h", "http://h/", "http://u:p@h:81/a/b/c?q#f", "https://h/a/./b/../c/d", "ws://h:90/x", "ftp://u@h/", "file:///", "file:///a/b", "file:///C:/", "file:///C:/a/b", "file:///C:", "file://h/C:/x", "file://h/a", "file:///a/C:/b", "file://h", "file:/a/b?q",
             "foo://h", "foo://h/a/b", "foo:/a/b", "foo:///a", "foo:/.//p", "foo://", "foo://u:p@h:80/a?b#c", "data:text/plain,x", "mailto:a@b", "about:blank", "foo:opaque  ?q#f", "blob:https://h/x", "javascript:1", "foo:", "foo:/", "non-special://h:0/a//b/", "http://[::1]:8/a/b", "http://1.2.3.4/", "https://h//", "http://h/a//", "http://h/?q", "http://h/#f", "file:///a//b/..", "file:///c|/d", "wss://h/a;b?c", "http://h/%2e%2e/a", "foo://h/C|/x", "http://h/C:/x/y"]

    # structured URL states: every combination of component presence/kind
    G_CREDS = ("", "", "u@", ":p@", "u:p@")
    G_HOST = ("h", "h", "1.2.3.4", "[::1]", "a.b.c", "xn--zca", "H%41")
    G_PORT = ("", "", ":0", ":80", ":443", ":21", ":8", ":65535")
    G_PATH = ("", "/", "/a", "/a/b", "/a/b/", "/C:", "/C:/", "/C:/a", "/C|/a", "//", "//a", "/a//", "/.//p", "/..", "/a/C:/b", "/a;b", "/%2e", "/C:/..", "/ ")
    G_OPAQUE = ("", "o", "o  ", "   ", " x", "o/p", "http://h/x", "http://u@h:8/", "%20", "a%", "o\u00e9 ", "https://h:443/x?y", "/ ", "//h/ ", "..", "C:")
    G_QUERY = (None, None, "", "q", "a=1&b=2&a=3", "a", "a=~ '", "%")
    G_FRAG = (None, None, "", "f", " ")

    def grid(self):
        r = self.r
        c = r.choice
        k = r.random()
        if k < 0.22:
            s = c(("foo:", "data:", "blob:", "javascript:", "a:", "mailto:")) + c(self.G_OPAQUE)
        elif k < 0.44:
            s = "file://" + c(("", "", "", "h", "1.2.3.4", "[::1]", "localhost")) + c(self.G_PATH[1:])
        elif k < 0.54:
            s = c(("foo:", "a:", "blob:")) + c(("/", "/a", "/a/b", "/.//p", "/.//", "/C:/a", "///a", "///", "//", "/..//a", "/ "))
        else:
            s = c(("http", "https", "ws", "wss", "ftp", "foo", "foo")) + "://" + c(self.G_CREDS) + c(self.G_HOST) + c(self.G_PORT) + c(self.G_PATH)
        q, f = c(self.G_QUERY), c(self.G_FRAG)
        return s + ("" if q is None else "?" + q) + ("" if f is None else "#" + f)

    @cleaned
    def base(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return r.choice(self.BASES)
        if x < 0.7:
            return self.grid()
        if x < 0.8:
            return r.choice(self.corpus["bases"])
        return self.absolute()

    def noise(self, s):
        r = self.r
        x = r.random()
        if x < 0.80:
            return s
        if x < 0.86:
            k = r.choice("\t\n\r")
            i = r.randrange(len(s) + 1)
            return s[:i] + k + s[i:]
        if x < 0.90:
            return "".join(chr(r.randrange(0, 0x21)) for _ in range(r.randrange(3))) + s + "".join(chr(r.randrange(0, 0x21)) for _ in range(r.randrange(3)))
        return self.mutate(s)

    def mutate(self, s):
        r = self.r
        for _ in range(r.choice((1, 1, 2, 3))):
            op = r.randrange(9)
            i = r.randrange(len(s) + 1)
            if op == 0:
                s = s[:i] + self.char() + s[i:]
            elif op == 1 and s:
                j = min(len(s), i + r.choice((1, 1, 2, 4)))
                s = s[:i] + s[j:]
            elif op == 2 and s:
                j = r.randrange(len(s))
                i, j = min(i, j), max(i, j)
                s = s[:j] + s[i:j] + s[j:]
            elif op == 3 and i < len(s):
                s = s[:i] + self.char() + s[i + 1:]
            elif op == 4:
                s = s[:i] + r.choice(STRUCT) + s[i:]
            elif op == 5 and i < len(s):
                s = s[:i] + s[i].swapcase() + s[i + 1:]
            elif op == 6 and i < len(s) and ord(s[i]) < 128:
                s = s[:i] + "%%%02x" % ord(s[i]) + s[i + 1:]
            elif op == 7:
                s = s[:i] + self.token() + s[i:]
            elif op == 8 and len(s) > 1:
                j = r.randrange(len(s))
                t = list(s)
                t[i - 1], t[j] = t[j], t[i - 1]
                s = "".join(t)
        return s

    @cleaned
    def url(self):
        """Any input string for the parser."""
        r = self.r
        x = r.random()
        if x < 0.62:
            return self.absolute()
        if x < 0.74:
            return self.mutate(r.choice(self.corpus["urls"]))
        if x < 0.80 and self.pool:
            return self.mutate(r.choice(self.pool))
        if x < 0.86:
            a, b = r.choice(self.corpus["urls"]), r.choice(self.corpus["urls"])
            return a[: r.randrange(len(a) + 1)] + b[r.randrange(len(b) + 1):]
        if x < 0.93:
            return r.choice(("http://", "foo://", "file://", "foo:", "https:", "ws://h")) + "".join(self.char() for _ in range(r.randrange(0, 8)))
        return self.relative()

    @cleaned
    def ref(self):
        """Any reference to resolve against a base."""
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.relative()
        if x < 0.8:
            return r.choice(self.corpus["urls"])
        if x < 0.87 and self.pool:
            return self.mutate(r.choice(self.pool))
        return self.url()

    # ---- setter / search-parameter operations
    ATTRS = ("href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")
    NAMES = ["a", "b", "a", "b", "c", "", "A", "a b", "%61", "+", "&", "=", "\u00e9", "\U0001f308", "\ufb03", "~", "\ud83c", "a=1", "aa", "\uff5e", "\ue000", "*"]

    @cleaned
    def setval(self, attr):
        r = self.r
        x = r.random()
        if x < 0.12:
            return self.text()
        if x < 0.2:
            l = self.corpus["setters"]
            c = [t for t in l if t[0] == attr]
            return r.choice(c)[2] if c else ""
        if attr == "href":
            return self.absolute() if r.random() < 0.8 else self.url()
        if attr == "protocol":
            s = self.scheme() + r.choice(("", ":", "://", ":x", ":80", " ", "\t:"))
            return s
        if attr in ("username", "password"):
            return r.choice(("", "u", "a:b", "@", "%40", "\u00e9", "\t", "/", " ", "u" * self.length())) if r.random() < 0.6 else self.text()
        if attr in ("host", "hostname"):
            s = self.host()
            if r.random() < 0.4:
                s += ":" + self.port()
            if r.random() < 0.2:
                s += r.choice(("/x", "?x", "#x", "\\x", "@y", "x@"))
            return self.noise(s)
        if attr == "port":
            return self.noise(self.port() + r.choice(("", "", "", "/", "x", "?", "#", "\\", ".5", " ")))
        if attr == "pathname":
            return self.noise(self.path() + r.choice(("", "", "?x", "#x")))
        if attr == "search":
            return r.choice(("", "?", "??", "", "?a=1", "a=1&b=2")) if r.random() < 0.4 else r.choice(("?", "")) + self.query()
        return r.choice(("", "#", "##")) if r.random() < 0.3 else r.choice(("#", "")) + self.text()

    def setop(self):
        a = self.r.choice(self.ATTRS)
        if a == "href" and self.r.random() < 0.5:
            a = self.r.choice(self.ATTRS)
        return ("set", a, self.setval(a))

    def name(self):
        r = self.r
        return r.choice(self.NAMES) if r.random() < 0.8 else self.text(0)

    def value(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return r.choice(("", "1", "2", "3", "a b", "%20", "&", "=", "+", "\u00e9", "~", "\ud83c\udf08", "#", "?"))
        if x < 0.8:
            return self.number()
        return self.text(0)

    def number(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice((0, 1, -1, 1.5, 10**20, 2, 3, True, False, 0.0, -0.0, 1e16, 1e22, 1e-7, 0.1 + 0.2, 123456789.125, 1 / 3, 5e-324, 1.7e308, float("inf"), -2.5e-5, 100.0, 2**63, -(2**31), 10**40))
        if x < 0.6:
            return r.randrange(-(10 ** r.randrange(1, 25)), 10 ** r.randrange(1, 25))
        return r.choice((r.random(), r.uniform(-1e6, 1e6), r.random() * 10 ** r.randrange(-20, 20), float(r.randrange(10**18)), r.randrange(1000) / 8))

    def paramop(self):
        """(method, args) on a search-parameter list"""
        r = self.r
        fn = r.choice(("append", "append", "append", "set", "set", "delete", "delete", "sort", "get", "get_all", "has", "has"))
        if fn in ("append", "set"):
            return fn, (self.name(), self.value())
        if fn == "sort":
            return fn, ()
        if fn in ("delete", "has") and r.random() < 0.5:
            return fn, (self.name(), r.choice((self.value(), self.value(), None)))
        return fn, (self.name(),)

    def keep(self, s):
        if len(self.pool) < 400:
            self.pool.append(s)
        else:
            self.pool[self.r.randrange(400)] = s


def enum_strings(alphabet, maxlen, shard, nshard, minlen=0):
    """All strings over alphabet with minlen <= len <= maxlen, sharded."""
    import itertools
    k = 0
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            if k % nshard == shard:
                yield "".join(t)
            k += 1
