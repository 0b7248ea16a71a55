"""Reference model: a literal, pointer-based transcription of the WHATWG URL
Living Standard (commit snapshot fff33c3, the version urlstd implements).

It is deliberately independent of /repo: it shares no code with urlstd and is
written in the shape of the specification text.  The only shared component is
ICU (through icupy), used for Unicode ToASCII / ToUnicode.  It is the oracle
the monitors compare observed behaviour with.
"""
import icupy.icu as icu

SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}
ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
HEX = frozenset("0123456789abcdefABCDEF")
ALNUM = ALPHA | DIGIT
FORBIDDEN_HOST = frozenset("\0\t\n\r #/:<>?@[\\]^|")
FORBIDDEN_DOMAIN = FORBIDDEN_HOST | {chr(i) for i in range(0x20)} | {"%", "\x7f"}


# percent-encode sets, as predicates on a byte (True = must be encoded)
def _pset(base, extra):
    s = set(base)
    s.update(ord(c) for c in extra)
    return frozenset(s)


C0_SET = frozenset(list(range(0x20)) + list(range(0x7F, 0x100)))
FRAGMENT_SET = _pset(C0_SET, ' "<>`')
QUERY_SET = _pset(C0_SET, ' "#<>')
SPECIAL_QUERY_SET = _pset(QUERY_SET, "'")
PATH_SET = _pset(QUERY_SET, "?`{}")
USERINFO_SET = _pset(PATH_SET, "/:;=@[\\]^|")
COMPONENT_SET = _pset(USERINFO_SET, "$%&+,")
URLENCODED_SET = _pset(COMPONENT_SET, "!'()~")


class Fail(Exception):
    """The standard's 'return failure'."""


def usv(s):
    """JavaScript USVString conversion: join pairs, replace lone surrogates."""
    out = []
    i, n = 0, len(s)
    while i < n:
        o = ord(s[i])
        if 0xD800 <= o <= 0xDBFF and i + 1 < n and 0xDC00 <= ord(s[i + 1]) <= 0xDFFF:
            out.append(chr(0x10000 + ((o - 0xD800) << 10) + (ord(s[i + 1]) - 0xDC00)))
            i += 2
            continue
        out.append("\ufffd" if 0xD800 <= o <= 0xDFFF else s[i])
        i += 1
    return "".join(out)


def has_surrogate(s):
    return any("\ud800" <= c <= "\udfff" for c in s)


def percent_byte(b):
    return "%" + "0123456789ABCDEF"[b >> 4] + "0123456789ABCDEF"[b & 15]


def utf8_pe(s, pset):
    out = []
    for b in s.encode("utf-8"):
        out.append(percent_byte(b) if b in pset else chr(b))
    return "".join(out)


def pe_after_encoding(s, encoding, pset, plus=False):
    """percent-encode after encoding, for stateless encodings: every scalar is
    encoded on its own; an unencodable one becomes %26%23NNN%3B."""
    out = []
    for c in s:
        try:
            bs = c.encode(encoding)
        except UnicodeEncodeError:
            out.append("%26%23" + str(ord(c)) + "%3B")
            continue
        for b in bs:
            if plus and b == 0x20:
                out.append("+")
            elif b in pset:
                out.append(percent_byte(b))
            else:
                out.append(chr(b))
    return "".join(out)


def percent_decode(bs):
    out = bytearray()
    i, n = 0, len(bs)
    while i < n:
        if bs[i] == 0x25 and i + 2 < n and chr(bs[i + 1]) in HEX and chr(bs[i + 2]) in HEX:
            out.append(int(chr(bs[i + 1]) + chr(bs[i + 2]), 16))
            i += 3
        else:
            out.append(bs[i])
            i += 1
    return bytes(out)


def utf8_decode(bs):
    """UTF-8 decode without BOM, per the Encoding Standard's decoder."""
    out = []
    needed = seen = cp = 0
    lo, hi = 0x80, 0xBF
    i, n = 0, len(bs)
    while i < n:
        b = bs[i]
        if needed == 0:
            if b <= 0x7F:
                out.append(chr(b))
            elif 0xC2 <= b <= 0xDF:
                needed, cp = 1, b & 0x1F
            elif 0xE0 <= b <= 0xEF:
                if b == 0xE0:
                    lo = 0xA0
                if b == 0xED:
                    hi = 0x9F
                needed, cp = 2, b & 0xF
            elif 0xF0 <= b <= 0xF4:
                if b == 0xF0:
                    lo = 0x90
                if b == 0xF4:
                    hi = 0x8F
                needed, cp = 3, b & 7
            else:
                out.append("\ufffd")
            i += 1
            continue
        if not (lo <= b <= hi):
            cp = needed = seen = 0
            lo, hi = 0x80, 0xBF
            out.append("\ufffd")
            continue  # reprocess b
        lo, hi = 0x80, 0xBF
        cp = (cp << 6) | (b & 0x3F)
        seen += 1
        i += 1
        if seen == needed:
            out.append(chr(cp))
            cp = needed = seen = 0
    if needed:
        out.append("\ufffd")
    return "".join(out)


def is_nonchar(o):
    return 0xFDD0 <= o <= 0xFDEF or (o & 0xFFFE) == 0xFFFE


def is_url_cp(c):
    if c in ALNUM or c in "!$&'()*+,-./:;=?@_~":
        return True
    o = ord(c)
    return 0xA0 <= o <= 0x10FFFD and not (0xD800 <= o <= 0xDFFF) and not is_nonchar(o)


# ---------------------------------------------------------------- IDNA
_inst = {}
HYPHENS = icu.UIDNA_ERROR_HYPHEN_3_4 | icu.UIDNA_ERROR_LEADING_HYPHEN | icu.UIDNA_ERROR_TRAILING_HYPHEN
DNSLEN = icu.UIDNA_ERROR_EMPTY_LABEL | icu.UIDNA_ERROR_LABEL_TOO_LONG | icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG


def _uts46(opts):
    r = _inst.get(opts)
    if r is None:
        r = _inst[opts] = icu.IDNA.create_uts46_instance(opts)
    return r


def _us(s):
    return icu.UnicodeString(s, len(s.encode("utf-16-le")) // 2)


def to_ascii(domain, strict=False):
    """domain to ASCII: CheckHyphens=false, CheckBidi=CheckJoiners=true,
    UseSTD3ASCIIRules=VerifyDnsLength=strict, Transitional=false."""
    opts = icu.UIDNA_CHECK_BIDI | icu.UIDNA_CHECK_CONTEXTJ | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
    ignore = HYPHENS
    if strict:
        opts |= icu.UIDNA_USE_STD3_RULES
    else:
        ignore |= DNSLEN
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    try:
        _uts46(opts).name_to_ascii(_us(domain), dest, info)
    except icu.ICUError:
        raise Fail("domain-to-ASCII")
    if info.get_errors() & ~ignore:
        raise Fail("domain-to-ASCII")
    r = str(dest)
    if r == "":
        raise Fail("domain-to-ASCII")
    return r


def to_unicode(domain, strict=False):
    """domain to Unicode -> (result, had_errors)."""
    opts = icu.UIDNA_CHECK_BIDI | icu.UIDNA_CHECK_CONTEXTJ | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
    if strict:
        opts |= icu.UIDNA_USE_STD3_RULES
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    try:
        _uts46(opts).name_to_unicode(_us(domain), dest, info)
    except icu.ICUError:
        raise Fail("domain-to-Unicode")
    return str(dest), bool(info.get_errors() & ~(HYPHENS | DNSLEN))


# ---------------------------------------------------------------- hosts
def ipv4_number(s):
    """-> (number, validation_error) or None for failure."""
    if s == "":
        return None
    verr = False
    radix = 10
    if len(s) >= 2 and s[0] == "0" and s[1] in "xX":
        verr, s, radix = True, s[2:], 16
    elif len(s) >= 2 and s[0] == "0":
        verr, s, radix = True, s[1:], 8
    if s == "":
        return 0, True
    digits = {10: DIGIT, 16: HEX, 8: frozenset("01234567")}[radix]
    value = 0
    for c in s:
        if c not in digits:
            return None
        if value < 1 << 64:  # magnitudes beyond 2**64 are all out of range
            value = value * radix + int(c, 16)
    return value, verr


def ends_in_number(s):
    parts = s.split(".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts.pop()
    last = parts[-1]
    if last != "" and all(c in DIGIT for c in last):
        return True
    return ipv4_number(last) is not None


def parse_ipv4(s, err):
    parts = s.split(".")
    if parts[-1] == "":
        err("IPv4-empty-part")
        if len(parts) > 1:
            parts.pop()
    if len(parts) > 4:
        err("IPv4-too-many-parts")
        raise Fail("IPv4-too-many-parts")
    nums = []
    for p in parts:
        r = ipv4_number(p)
        if r is None:
            err("IPv4-non-numeric-part")
            raise Fail("IPv4-non-numeric-part")
        if r[1]:
            err("IPv4-non-decimal-part")
        nums.append(r[0])
    if any(x > 255 for x in nums):
        err("IPv4-out-of-range-part")
    if any(x > 255 for x in nums[:-1]):
        raise Fail("IPv4-out-of-range-part")
    if nums[-1] >= 256 ** (5 - len(nums)):
        raise Fail("IPv4-out-of-range-part")
    ipv4 = nums[-1]
    for i, x in enumerate(nums[:-1]):
        ipv4 += x * 256 ** (3 - i)
    return ipv4


def parse_ipv6(s):
    addr = [0] * 8
    pi = 0
    compress = None
    p = 0
    n = len(s)

    def c(i):
        return s[i] if i < n else None

    if c(p) == ":":
        if c(p + 1) != ":":
            raise Fail("IPv6-invalid-compression")
        p += 2
        pi += 1
        compress = pi
    while c(p) is not None:
        if pi == 8:
            raise Fail("IPv6-too-many-pieces")
        if c(p) == ":":
            if compress is not None:
                raise Fail("IPv6-multiple-compression")
            p += 1
            pi += 1
            compress = pi
            continue
        value = length = 0
        while length < 4 and c(p) is not None and c(p) in HEX:
            value = value * 16 + int(c(p), 16)
            p += 1
            length += 1
        if c(p) == ".":
            if length == 0:
                raise Fail("IPv4-in-IPv6-invalid-code-point")
            p -= length
            if pi > 6:
                raise Fail("IPv4-in-IPv6-too-many-pieces")
            seen = 0
            while c(p) is not None:
                v4 = None
                if seen > 0:
                    if c(p) == "." and seen < 4:
                        p += 1
                    else:
                        raise Fail("IPv4-in-IPv6-invalid-code-point")
                if c(p) is None or c(p) not in DIGIT:
                    raise Fail("IPv4-in-IPv6-invalid-code-point")
                while c(p) is not None and c(p) in DIGIT:
                    num = int(c(p))
                    if v4 is None:
                        v4 = num
                    elif v4 == 0:
                        raise Fail("IPv4-in-IPv6-invalid-code-point")
                    else:
                        v4 = v4 * 10 + num
                    if v4 > 255:
                        raise Fail("IPv4-in-IPv6-out-of-range-part")
                    p += 1
                addr[pi] = addr[pi] * 0x100 + v4
                seen += 1
                if seen in (2, 4):
                    pi += 1
            if seen != 4:
                raise Fail("IPv4-in-IPv6-too-few-parts")
            break
        elif c(p) == ":":
            p += 1
            if c(p) is None:
                raise Fail("IPv6-invalid-code-point")
        elif c(p) is not None:
            raise Fail("IPv6-invalid-code-point")
        addr[pi] = value
        pi += 1
    if compress is not None:
        swaps = pi - compress
        pi = 7
        while pi != 0 and swaps > 0:
            j = compress + swaps - 1
            addr[pi], addr[j] = addr[j], addr[pi]
            pi -= 1
            swaps -= 1
    elif pi != 8:
        raise Fail("IPv6-too-few-pieces")
    return tuple(addr)


def ser_ipv4(n):
    out = []
    for _ in range(4):
        out.insert(0, str(n % 256))
        n //= 256
    return ".".join(out)


def ser_ipv6(a):
    # first longest run of >= 2 zero pieces
    best, best_len = None, 1
    i = 0
    while i < 8:
        if a[i] == 0:
            j = i
            while j < 8 and a[j] == 0:
                j += 1
            if j - i > best_len:
                best, best_len = i, j - i
            i = j
        else:
            i += 1
    out = ""
    ignore0 = False
    for i in range(8):
        if ignore0 and a[i] == 0:
            continue
        ignore0 = False
        if best == i:
            out += "::" if i == 0 else ":"
            ignore0 = True
            continue
        out += format(a[i], "x")
        if i != 7:
            out += ":"
    return out


def ser_host(h):
    if isinstance(h, int):
        return ser_ipv4(h)
    if isinstance(h, (tuple, list)):
        return "[" + ser_ipv6(h) + "]"
    return h


def bad_percent(s):
    i = s.find("%")
    while i != -1:
        if not (i + 2 < len(s) and s[i + 1] in HEX and s[i + 2] in HEX):
            return True
        i = s.find("%", i + 1)
    return False


def parse_host(s, is_opaque=False, err=lambda t: None):
    s = usv(s)
    if s == "":
        return ""  # urlstd API: the empty host
    if s[0] == "[":
        if s[-1] != "]":
            err("IPv6-unclosed")
            raise Fail("IPv6-unclosed")
        try:
            return parse_ipv6(s[1:-1])
        except Fail as e:
            err(str(e))
            raise
    if is_opaque:
        if any(c in FORBIDDEN_HOST for c in s):
            err("host-invalid-code-point")
            raise Fail("host-invalid-code-point")
        if any(not is_url_cp(c) and c != "%" for c in s) or bad_percent(s):
            err("invalid-URL-unit")
        return utf8_pe(s, C0_SET)
    domain = utf8_decode(percent_decode(s.encode("utf-8")))
    try:
        a = to_ascii(domain, False)
    except Fail:
        err("domain-to-ASCII")
        raise
    if any(c in FORBIDDEN_DOMAIN for c in a):
        err("domain-invalid-code-point")
        raise Fail("domain-invalid-code-point")
    if ends_in_number(a):
        return parse_ipv4(a, err)
    return a


# ---------------------------------------------------------------- record
class Rec:
    __slots__ = ("scheme", "username", "password", "host", "port", "path", "query", "fragment")

    def __init__(self):
        self.scheme = ""
        self.username = ""
        self.password = ""
        self.host = None
        self.port = None
        self.path = []
        self.query = None
        self.fragment = None

    def copy(self):
        r = Rec()
        for k in Rec.__slots__:
            setattr(r, k, getattr(self, k))
        if isinstance(r.path, list):
            r.path = list(r.path)
        return r

    def tup(self):
        return (self.scheme, self.username, self.password, self.host, self.port,
                tuple(self.path) if isinstance(self.path, list) else self.path,
                self.query, self.fragment)

    @property
    def special(self):
        return self.scheme in SPECIAL

    @property
    def opaque(self):
        return isinstance(self.path, str)

    @property
    def creds(self):
        return self.username != "" or self.password != ""

    @property
    def no_userpassport(self):
        return self.host is None or self.host == "" or self.scheme == "file"

    def ser_path(self):
        return self.path if self.opaque else "".join("/" + p for p in self.path)

    def ser(self, exclude_fragment=False):
        out = self.scheme + ":"
        if self.host is not None:
            out += "//"
            if self.creds:
                out += self.username
                if self.password != "":
                    out += ":" + self.password
                out += "@"
            out += ser_host(self.host)
            if self.port is not None:
                out += ":" + str(self.port)
        elif not self.opaque and len(self.path) > 1 and self.path[0] == "":
            out += "/."
        out += self.ser_path()
        if self.query is not None:
            out += "?" + self.query
        if not exclude_fragment and self.fragment is not None:
            out += "#" + self.fragment
        return out

    def shorten(self):
        if self.scheme == "file" and len(self.path) == 1 and is_norm_drive(self.path[0]):
            return
        if self.path:
            self.path.pop()

    def origin(self):
        """(scheme, host, port) or None when opaque."""
        if self.scheme == "blob":
            try:
                u = parse(self.ser_path())
            except Fail:
                return None
            if u.scheme in ("http", "https", "file"):
                return u.origin()
            return None
        if self.scheme in ("ftp", "http", "https", "ws", "wss"):
            return (self.scheme, self.host, self.port)
        return None

    def ser_origin(self):
        o = self.origin()
        if o is None:
            return "null"
        return o[0] + "://" + ser_host(o[1]) + ("" if o[2] is None else ":" + str(o[2]))


def is_drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def is_norm_drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] == ":"


def starts_drive(s):
    return len(s) >= 2 and is_drive(s[:2]) and (len(s) == 2 or s[2] in "/\\?#")


def is_single_dot(s):
    return s.lower() in (".", "%2e")


def is_double_dot(s):
    return s.lower() in ("..", ".%2e", "%2e.", "%2e%2e")


def is_c0_or_space(c):
    return c <= " "


def parse(s, base=None, encoding="utf-8", url=None, override=None, err=None, trace=None):
    """The basic URL parser.  Raises Fail; with `url`, mutates it in place."""
    if err is None:
        err = lambda t: None
    s = usv(s)
    if url is None:
        url = Rec()
        a, b = 0, len(s)
        while a < b and is_c0_or_space(s[a]):
            a += 1
        while b > a and is_c0_or_space(s[b - 1]):
            b -= 1
        if b - a != len(s):
            err("invalid-URL-unit")
            s = s[a:b]
    if "\t" in s or "\n" in s or "\r" in s:
        err("invalid-URL-unit")
        s = s.replace("\t", "").replace("\n", "").replace("\r", "")
    state = override or "scheme start"
    buf = ""
    at_seen = brackets = pw_seen = False
    n = len(s)
    p = 0

    def unit_check(c, p):
        if not is_url_cp(c) and c != "%":
            err("invalid-URL-unit")
        if c == "%" and not (p + 2 < n and s[p + 1] in HEX and s[p + 2] in HEX):
            err("invalid-URL-unit")

    while True:
        c = s[p] if 0 <= p < n else None  # None is the EOF code point
        if trace is not None and (not trace or trace[-1] != state):
            trace.append(state)
        if state == "scheme start":
            if c is not None and c in ALPHA:
                buf += c.lower()
                state = "scheme"
            elif override is None:
                state = "no scheme"
                p -= 1
            else:
                raise Fail("scheme")
        elif state == "scheme":
            if c is not None and (c in ALNUM or c in "+-."):
                buf += c.lower()
            elif c == ":":
                if override:
                    if (url.scheme in SPECIAL) != (buf in SPECIAL):
                        return url
                    if (url.creds or url.port is not None) and buf == "file":
                        return url
                    if url.scheme == "file" and (url.host is None or url.host == ""):
                        return url
                url.scheme = buf
                if override:
                    if url.port is not None and url.port == SPECIAL.get(url.scheme):
                        url.port = None
                    return url
                buf = ""
                if url.scheme == "file":
                    if s[p + 1:p + 3] != "//":
                        err("special-scheme-missing-following-solidus")
                    state = "file"
                elif url.special and base is not None and base.scheme == url.scheme:
                    state = "special relative or authority"
                elif url.special:
                    state = "special authority slashes"
                elif s[p + 1:p + 2] == "/":
                    state = "path or authority"
                    p += 1
                else:
                    url.path = ""
                    state = "opaque path"
            elif override is None:
                buf = ""
                state = "no scheme"
                p = -1
            else:
                raise Fail("scheme")
        elif state == "no scheme":
            if base is None or (base.opaque and c != "#"):
                err("missing-scheme-non-relative-URL")
                raise Fail("missing-scheme-non-relative-URL")
            elif base.opaque and c == "#":
                url.scheme = base.scheme
                url.path = base.path
                url.query = base.query
                url.fragment = ""
                state = "fragment"
            elif base.scheme != "file":
                state = "relative"
                p -= 1
            else:
                state = "file"
                p -= 1
        elif state == "special relative or authority":
            if c == "/" and s[p + 1:p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                err("special-scheme-missing-following-solidus")
                state = "relative"
                p -= 1
        elif state == "path or authority":
            if c == "/":
                state = "authority"
            else:
                state = "path"
                p -= 1
        elif state == "relative":
            url.scheme = base.scheme
            if c == "/":
                state = "relative slash"
            elif url.special and c == "\\":
                err("invalid-reverse-solidus")
                state = "relative slash"
            else:
                url.username = base.username
                url.password = base.password
                url.host = base.host
                url.port = base.port
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    url.shorten()
                    state = "path"
                    p -= 1
        elif state == "relative slash":
            if url.special and c is not None and c in "/\\":
                if c == "\\":
                    err("invalid-reverse-solidus")
                state = "special authority ignore slashes"
            elif c == "/":
                state = "authority"
            else:
                url.username = base.username
                url.password = base.password
                url.host = base.host
                url.port = base.port
                state = "path"
                p -= 1
        elif state == "special authority slashes":
            if c == "/" and s[p + 1:p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                err("special-scheme-missing-following-solidus")
                state = "special authority ignore slashes"
                p -= 1
        elif state == "special authority ignore slashes":
            if c is None or c not in "/\\":
                state = "authority"
                p -= 1
            else:
                err("special-scheme-missing-following-solidus")
        elif state == "authority":
            if c == "@":
                err("invalid-credentials")
                if at_seen:
                    buf = "%40" + buf
                at_seen = True
                for ch in buf:
                    if ch == ":" and not pw_seen:
                        pw_seen = True
                        continue
                    e = utf8_pe(ch, USERINFO_SET)
                    if pw_seen:
                        url.password += e
                    else:
                        url.username += e
                buf = ""
            elif c is None or c in "/?#" or (url.special and c == "\\"):
                if at_seen and buf == "":
                    err("invalid-credentials")
                    raise Fail("invalid-credentials")
                p -= len(buf) + 1
                buf = ""
                state = "host"
            else:
                buf += c
        elif state in ("host", "hostname"):
            if override and url.scheme == "file":
                p -= 1
                state = "file host"
            elif c == ":" and not brackets:
                if buf == "":
                    err("host-missing")
                    raise Fail("host-missing")
                if override == "hostname":
                    return url
                url.host = parse_host(buf, not url.special, err)
                buf = ""
                state = "port"
            elif c is None or c in "/?#" or (url.special and c == "\\"):
                p -= 1
                if url.special and buf == "":
                    err("host-missing")
                    raise Fail("host-missing")
                elif override and buf == "" and (url.creds or url.port is not None):
                    return url
                url.host = parse_host(buf, not url.special, err)
                buf = ""
                state = "path start"
                if override:
                    return url
            else:
                if c == "[":
                    brackets = True
                if c == "]":
                    brackets = False
                buf += c
        elif state == "port":
            if c is not None and c in DIGIT:
                buf += c
            elif c is None or c in "/?#" or (url.special and c == "\\") or override:
                if buf != "":
                    digits = buf.lstrip("0")
                    if len(digits) > 5 or int(digits or "0") > 65535:
                        err("port-out-of-range")
                        raise Fail("port-out-of-range")
                    port = int(digits or "0")
                    url.port = None if SPECIAL.get(url.scheme) == port else port
                    buf = ""
                if override:
                    return url
                state = "path start"
                p -= 1
            else:
                err("port-invalid")
                raise Fail("port-invalid")
        elif state == "file":
            url.scheme = "file"
            url.host = ""
            if c is not None and c in "/\\":
                if c == "\\":
                    err("invalid-reverse-solidus")
                state = "file slash"
            elif base is not None and base.scheme == "file":
                url.host = base.host
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    if not starts_drive(s[p:p + 3]):
                        url.shorten()
                    else:
                        err("file-invalid-Windows-drive-letter")
                        url.path = []
                    state = "path"
                    p -= 1
            else:
                state = "path"
                p -= 1
        elif state == "file slash":
            if c is not None and c in "/\\":
                if c == "\\":
                    err("invalid-reverse-solidus")
                state = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if not starts_drive(s[p:p + 3]) and base.path and is_norm_drive(base.path[0]):
                        url.path.append(base.path[0])
                state = "path"
                p -= 1
        elif state == "file host":
            if c is None or c in "/\\?#":
                p -= 1
                if override is None and is_drive(buf):
                    err("file-invalid-Windows-drive-letter-host")
                    state = "path"  # buf is kept
                elif buf == "":
                    url.host = ""
                    if override:
                        return url
                    state = "path start"
                else:
                    h = parse_host(buf, not url.special, err)
                    if h == "localhost":
                        h = ""
                    url.host = h
                    if override:
                        return url
                    buf = ""
                    state = "path start"
            else:
                buf += c
        elif state == "path start":
            if url.special:
                if c == "\\":
                    err("invalid-reverse-solidus")
                state = "path"
                if c is None or c not in "/\\":
                    p -= 1
            elif override is None and c == "?":
                url.query = ""
                state = "query"
            elif override is None and c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                state = "path"
                if c != "/":
                    p -= 1
            elif override and url.host is None:
                url.path.append("")
        elif state == "path":
            if c is None or c == "/" or (url.special and c == "\\") or (override is None and c in "?#"):
                if url.special and c == "\\":
                    err("invalid-reverse-solidus")
                slash = c == "/" or (url.special and c == "\\")
                if is_double_dot(buf):
                    url.shorten()
                    if not slash:
                        url.path.append("")
                elif is_single_dot(buf):
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and is_drive(buf):
                        buf = buf[0] + ":"
                    url.path.append(buf)
                buf = ""
                if c == "?":
                    url.query = ""
                    state = "query"
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit_check(c, p)
                buf += utf8_pe(c, PATH_SET)
        elif state == "opaque path":
            if c == "?":
                url.query = ""
                state = "query"
            elif c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                unit_check(c, p)
                url.path += utf8_pe(c, C0_SET)
        elif state == "query":
            if encoding != "utf-8" and (not url.special or url.scheme in ("ws", "wss")):
                encoding = "utf-8"
            if (override is None and c == "#") or c is None:
                qset = SPECIAL_QUERY_SET if url.special else QUERY_SET
                url.query += pe_after_encoding(buf, encoding, qset)
                buf = ""
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit_check(c, p)
                buf += c
        elif state == "fragment":
            if c is not None:
                unit_check(c, p)
                url.fragment += utf8_pe(c, FRAGMENT_SET)
        else:
            raise AssertionError(state)
        if c is None and (p >= n):
            break
        p += 1
    return url


def parse_url(s, base=None, encoding="utf-8", err=None, trace=None):
    if base is not None and not isinstance(base, Rec):
        base = parse(base, encoding=encoding, err=err)
    return parse(s, base, encoding, err=err, trace=trace)


# ---------------------------------------------------------------- urlencoded
def qsl(bs):
    out = []
    for seq in bs.split(b"&"):
        if not seq:
            continue
        i = seq.find(b"=")
        k, v = (seq, b"") if i < 0 else (seq[:i], seq[i + 1:])
        k = utf8_decode(percent_decode(k.replace(b"+", b" ")))
        v = utf8_decode(percent_decode(v.replace(b"+", b" ")))
        out.append((k, v))
    return out


def urlencode(pairs, encoding="utf-8"):
    return "&".join(
        pe_after_encoding(usv(k), encoding, URLENCODED_SET, True) + "="
        + pe_after_encoding(usv(v), encoding, URLENCODED_SET, True)
        for k, v in pairs
    )


def u16key(s):
    b = s.encode("utf-16-be")
    return [(b[i] << 8) | b[i + 1] for i in range(0, len(b), 2)]


class Params:
    """URLSearchParams as a plain list of pairs, optionally bound to a Rec."""

    def __init__(self, pairs=(), rec=None):
        self.l = list(pairs)
        self.rec = rec

    @classmethod
    def of_string(cls, s):
        s = usv(s)
        if s.startswith("?"):
            s = s[1:]
        return cls(qsl(s.encode("utf-8")))

    def attach(self, rec):
        self.l = qsl((rec.query or "").encode("utf-8"))
        self.rec = rec

    def ser(self):
        return urlencode(self.l)

    def update(self):
        if self.rec is None:
            return
        q = self.ser()
        if q == "":
            self.rec.query = None
            strip_opaque(self.rec)
        else:
            self.rec.query = q

    def append(self, k, v):
        self.l.append((usv(k), usv(str(v))))
        self.update()

    def delete(self, k, v=None):
        k = usv(k)
        if v is None:
            self.l = [x for x in self.l if x[0] != k]
        else:
            v = usv(str(v))
            self.l = [x for x in self.l if x != (k, v)]
        self.update()

    def get(self, k):
        k = usv(k)
        for a, b in self.l:
            if a == k:
                return b
        return None

    def get_all(self, k):
        k = usv(k)
        return tuple(b for a, b in self.l if a == k)

    def has(self, k, v=None):
        k = usv(k)
        if v is not None:
            v = usv(str(v))
        return any(a == k and (v is None or b == v) for a, b in self.l)

    def set(self, k, v):
        k, v = usv(k), usv(str(v))
        out, done = [], False
        for a, b in self.l:
            if a != k:
                out.append((a, b))
            elif not done:
                done = True
                out.append((k, v))
        if not done:
            out.append((k, v))
        self.l = out
        self.update()

    def sort(self):
        self.l = sorted(self.l, key=lambda x: u16key(x[0]))
        self.update()


def strip_opaque(rec):
    if rec.opaque and rec.fragment is None and rec.query is None:
        rec.path = rec.path.rstrip(" ")


# ---------------------------------------------------------------- URL class
class MURL:
    """Model of the URL class; setters return True when the parser failed."""

    def __init__(self, s, base=None):
        if isinstance(base, MURL):
            base = base.rec
        self.rec = parse_url(s, base)
        self.params = Params()
        self.params.attach(self.rec)

    def getters(self):
        r = self.rec
        host = "" if r.host is None else ser_host(r.host)
        return {
            "href": r.ser(), "origin": r.ser_origin(), "protocol": r.scheme + ":",
            "username": r.username, "password": r.password,
            "host": host if r.port is None else host + ":" + str(r.port),
            "hostname": host, "port": "" if r.port is None else str(r.port),
            "pathname": r.ser_path(), "search": "?" + r.query if r.query else "",
            "hash": "#" + r.fragment if r.fragment else "",
        }

    def set(self, attr, v):
        r = self.rec
        try:
            if attr == "href":
                self.rec = parse(v)
                self.params.attach(self.rec)
            elif attr == "protocol":
                parse(v + ":", url=r, override="scheme start")
            elif attr in ("username", "password"):
                if not r.no_userpassport:
                    setattr(r, attr, utf8_pe(usv(v), USERINFO_SET))
            elif attr == "host":
                if not r.opaque:
                    parse(v, url=r, override="host")
            elif attr == "hostname":
                if not r.opaque:
                    parse(v, url=r, override="hostname")
            elif attr == "port":
                if not r.no_userpassport:
                    if v == "":
                        r.port = None
                    else:
                        parse(v, url=r, override="port")
            elif attr == "pathname":
                if not r.opaque:
                    r.path = []
                    parse(v, url=r, override="path start")
            elif attr == "search":
                if v == "":
                    r.query = None
                    self.params.attach(r)
                    strip_opaque(r)
                else:
                    r.query = ""
                    parse(v[1:] if v[0] == "?" else v, url=r, override="query")
                    self.params.attach(r)
            elif attr == "hash":
                if v == "":
                    r.fragment = None
                    strip_opaque(r)
                else:
                    r.fragment = ""
                    parse(v[1:] if v[0] == "#" else v, url=r, override="fragment")
            else:
                raise AssertionError(attr)
        except Fail as e:
            self.why = str(e)
            return True
        return False


# ---------------------------------------------------------------- validity
def valid_ipv4(s):
    parts = s.split(".")
    if len(parts) != 4:
        return False
    for p in parts:
        if p == "" or any(c not in DIGIT for c in p) or len(p) > 3:
            return False
        if str(int(p)) != p or int(p) > 255:
            return False
    return True


def valid_ipv6(s):
    try:
        parse_ipv6(usv(s))
        return True
    except Fail:
        return False


def valid_domain(s):
    try:
        s = usv(s)
        to_ascii(s, True)
        return not to_unicode(s, True)[1]
    except Fail:
        return False


def valid_opaque_host(s):
    if s == "":
        return False
    if s[0] == "[" and s[-1] == "]":
        return valid_ipv6(s[1:-1])
    return all((is_url_cp(c) or c == "%") and c not in FORBIDDEN_HOST for c in s) and not bad_percent(s)


def valid_host(s):
    if s[:1] == "[" and s[-1:] == "]":
        return valid_ipv6(s[1:-1])
    if ends_in_number(s):
        return valid_ipv4(s)
    return valid_domain(s)


def urlparse_fields(rec, allow_fragments=True):
    """urlstd.parse.urlparse(): the record spread over a urllib ParseResult."""
    host = "" if rec.host is None else ser_host(rec.host)
    netloc = ""
    if rec.creds:
        netloc = rec.username + (":" + rec.password if rec.password else "") + "@"
    netloc += host + ("" if rec.port is None else ":" + str(rec.port))
    path = rec.ser_path()
    params = ""
    i = path.find(";")
    if i >= 0:
        path, params = path[:i], path[i + 1:]
    query = rec.query or ""
    frag = rec.fragment or ""
    if not allow_fragments and frag:
        if query:
            query += "#" + frag
        elif params:
            params += "#" + frag
        else:
            path += "#" + frag
    if not allow_fragments:
        frag = ""
    return (rec.scheme, netloc, path, params, query, frag)
