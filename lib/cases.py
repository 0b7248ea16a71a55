"""Monitored executions: each function drives the real API once (or through a
history) and compares every observation with the reference model."""
import refurl as M
import harness as H
from harness import observe, rec_tuple, getters, typed

GETTERS = H.GETTERS


def model(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except M.Fail as e:
        return "fail", str(e)


def cmp_record(m, what, lib_rec, mod_rec):
    a, b = rec_tuple(lib_rec), mod_rec.tup()
    if a != b or type(a[3]) is not type(b[3]) and not (a[3] == b[3]):
        m.violate(what + ": record differs from the standard", got=a, expected=b)
        return False
    if isinstance(a[3], bool) or type(a[3]) is not type(b[3]):
        m.violate(what + ": host has the wrong type", got=typed(a[3]), expected=typed(b[3]))
        return False
    return True


def cmp_getters(m, what, u, mu):
    g, e = getters(u), mu.getters()
    if g != e:
        d = [k for k in e if g.get(k) != e[k]]
        m.violate(what + ": %s differs from the standard" % ",".join(d),
                  got={k: g.get(k) for k in d}, expected={k: e[k] for k in d}, href=g["href"])
        return False
    if str(u) != e["href"]:
        m.violate(what + ": str() is not href", got=str(u), expected=e["href"])
        return False
    l = list(u.search_params)
    if l != mu.params.l:
        m.violate(what + ": search_params differs", got=l, expected=mu.params.l)
        return False
    return True


def expect(m, what, got, exp):
    """Compare a status pair; True when both are ok."""
    if got[0] == "exc":
        m.violate(what + ": raises %s instead of a URLParseError or a result" % type(got[1]).__name__, exception=repr(got[1]), expected=exp[0])
        return False
    if got[0] != exp[0]:
        if exp[0] == "fail":
            m.violate(what + ": accepted although the standard rejects it (%s)" % exp[1], got=got[1])
        else:
            m.violate(what + ": rejected although the standard accepts it", got=repr(got[1]), expected=exp[1])
        return False
    return got[0] == "ok"


def cls_char(c):
    o = ord(c)
    if c in "/:?#@[]\\.%&=;+|~":
        return c
    if c.isalnum() and o < 128:
        return "a" if c.isalpha() else "0"
    if o <= 0x20 or o == 0x7F:
        return "^"
    if o < 128:
        return "p"
    return "u" if o < 0x10000 else "U"


def shape(s, n=40):
    """Abstract shape of an input (runs of a class collapsed)."""
    out = []
    for c in s[:200]:
        k = cls_char(c)
        if not out or out[-1] != k or k not in "a0puU^":
            out.append(k)
    return "".join(out)[:n]


# ------------------------------------------------------------ parsing
def parse(m, s, deep=True):
    """parse_url / URL / can_parse on one string, no base."""
    P, E = H.load()
    trace = []
    exp = model(M.parse_url, s, trace=trace)
    got = observe(E, P.parse_url, s)
    m.count("parse_" + exp[0])
    m.feature(tuple(trace), exp[0] if exp[0] == "ok" else exp[1], shape(s, 24))
    if not expect(m, "parse_url", got, exp):
        if deep and got[0] == "fail":
            c = observe(E, P.URL.can_parse, s)
            if c != ("ok", False):
                m.violate("can_parse disagrees with parse failure", got=c)
        return
    if not cmp_record(m, "parse_url", got[1], exp[1]):
        return
    href = exp[1].ser()
    if str(got[1]) != href or got[1].href != href or got[1].serialize_url() != href:
        m.violate("serialized record differs from the standard", got=str(got[1]), expected=href)
        return
    if deep:
        u = observe(E, P.URL, s)
        if not expect(m, "URL", u, exp):
            return
        mu = M.MURL.__new__(M.MURL)
        mu.rec = exp[1]
        mu.params = M.Params()
        mu.params.attach(mu.rec)
        cmp_getters(m, "URL", u[1], mu)
        c = observe(E, P.URL.can_parse, s)
        if c != ("ok", True):
            m.violate("can_parse is not True for a parsable URL", got=c)


def resolve(m, s, b, mode):
    """Reference resolution against a base given as str / URLRecord / URL."""
    P, E = H.load()
    trace = []
    exp = model(M.parse_url, s, b, trace=trace)
    m.count("resolve_" + exp[0])
    mb = model(M.parse_url, b)
    m.feature(tuple(trace), exp[0] if exp[0] == "ok" else exp[1], shape(s, 16), shape(b, 16))
    if mode == "str":
        got = observe(E, P.parse_url, s, b)
    elif mode in ("rec", "url"):
        lb = observe(E, P.parse_url if mode == "rec" else P.URL, b)
        if lb[0] != "ok":
            if mb[0] == "ok" or lb[0] == "exc":
                m.violate("base does not parse", got=repr(lb[1]), base=b)
            return
        if mb[0] != "ok":
            return
        if mode == "url":
            got = observe(E, P.URL, s, lb[1])
        else:
            got = observe(E, P.parse_url, s, lb[1])
    elif mode == "ustr":
        got = observe(E, P.URL, s, b)
    else:
        raise AssertionError(mode)
    if not expect(m, "resolve(%s)" % mode, got, exp):
        return
    if mode in ("url", "ustr"):
        mu = M.MURL.__new__(M.MURL)
        mu.rec = exp[1]
        mu.params = M.Params()
        mu.params.attach(mu.rec)
        cmp_getters(m, "resolve(%s)" % mode, got[1], mu)
    else:
        if cmp_record(m, "resolve(%s)" % mode, got[1], exp[1]) and str(got[1]) != exp[1].ser():
            m.violate("resolved serialization differs", got=str(got[1]), expected=exp[1].ser())
    if mode in ("str", "ustr"):
        c = observe(E, P.URL.can_parse, s, b)
        if c != ("ok", True):
            m.violate("can_parse(url, base) is not True for a resolvable reference", got=c)


def resolve_live(m, start, ops, refs):
    """References resolved against a URL object that has been through a
    history of setters and parameter changes: it is the object's current
    components that count, also where they would not survive a round trip
    through text."""
    P, E = H.load()
    exp = model(M.MURL, start)
    got = observe(E, P.URL, start)
    if exp[0] != "ok" or got[0] != "ok":
        return
    u, mu = got[1], exp[1]
    # the parser interleaved with the changes, not only after all of them
    for op in list(ops) + [None]:
        if op is not None:
            if op[0] == "set":
                mu.set(op[1], op[2])
                observe(E, setattr, u, op[1], op[2])
            else:
                getattr(mu.params, op[1])(*op[2])
                observe(E, getattr(u.search_params, op[1]), *op[2])
        if getters(u) != mu.getters():
            m.count("live_history_differs")  # decided by the setter properties
            return
        for s in refs if op is None else refs[:1]:
            trace = []
            e = model(M.parse_url, s, mu.rec.copy(), trace=trace)
            m.count("live_" + e[0])
            m.feature("live", tuple(trace), e[0], shape(s, 12), mu.rec.scheme, mu.rec.host is None, mu.rec.opaque)
            what = "resolve against a changed URL object"
            r = observe(E, P.URL, s, u)
            if expect(m, what, r, e):
                m2 = M.MURL.__new__(M.MURL)
                m2.rec = e[1]
                m2.params = M.Params()
                m2.params.attach(m2.rec)
                if not cmp_getters(m, what, r[1], m2):
                    return
            elif r[0] != "fail" or e[0] != "fail":
                return
            c = observe(E, P.URL.can_parse, s, u)
            if c != ("ok", e[0] == "ok"):
                m.violate("can_parse(url, changed base) is wrong", got=c, expected=e[0] == "ok")
                return
            if getters(u) != mu.getters() or list(u.search_params) != mu.params.l:
                m.violate("resolving against a URL object changed it", got=getters(u), expected=mu.getters())
                return


# ------------------------------------------------------------ hosts
def host(m, s, opaque):
    P, E = H.load()
    errs = []
    exp = model(M.parse_host, s, opaque, errs.append)
    got = observe(E, P.Host.parse, s, opaque)
    m.count("host_" + exp[0])
    kind = type(exp[1]).__name__ if exp[0] == "ok" else exp[1]
    m.count("host_kind_" + kind)
    m.feature(opaque, kind, tuple(errs), shape(s, 30))
    if exp[0] == "fail" and got[0] == "fail":
        if exp[1].startswith("IPv6-") or exp[1].startswith("IPv4-in-IPv6"):
            if not isinstance(got[1], E.HostParseError):
                m.violate("IPv6 failure is not reported as a host parse error", got=repr(got[1]))
    if not expect(m, "Host.parse", got, exp):
        return
    g = got[1]
    g = tuple(g) if isinstance(g, list) else g
    if g != exp[1] or type(g) is not type(exp[1]):
        m.violate("Host.parse: host differs from the standard", got=typed(got[1]), expected=typed(exp[1]))
        return
    ser = observe(E, P.Host.serialize, got[1])
    if ser != ("ok", M.ser_host(exp[1])):
        m.violate("Host.serialize differs from the standard", got=ser, expected=M.ser_host(exp[1]))
        return
    if got[1] != "":
        again = observe(E, P.Host.parse, ser[1], opaque)
        if again != ("ok", got[1]):
            m.violate("host does not survive serialize-and-reparse", host=ser[1], got=again, expected=got[1])


def ipv4_value(m, n):
    P, E = H.load()
    m.count("ipv4_values")
    m.feature("v4", n)
    s = observe(E, P.Host.serialize, n)
    if s != ("ok", M.ser_ipv4(n)):
        m.violate("IPv4 serialization differs", got=s, expected=M.ser_ipv4(n))
        return
    r = observe(E, P.Host.parse, s[1])
    if r != ("ok", n):
        m.violate("IPv4 value does not round-trip", text=s[1], got=r, expected=n)


def ipv6_value(m, t):
    P, E = H.load()
    m.count("ipv6_values")
    m.feature("v6", t)
    for v in (t, list(t)):
        s = observe(E, P.Host.serialize, v)
        if s != ("ok", "[" + M.ser_ipv6(t) + "]"):
            m.violate("IPv6 serialization differs", got=s, expected=M.ser_ipv6(t))
            return
    for opq in (False, True):
        r = observe(E, P.Host.parse, s[1], opq)
        if r != ("ok", tuple(t)):
            m.violate("IPv6 value does not round-trip", text=s[1], got=r, expected=t)


def idna(m, s, strict):
    P, E = H.load()
    u = M.usv(s)
    exp = model(M.to_ascii, u, strict)
    got = observe(E, P.IDNA.domain_to_ascii, s, strict)
    m.count("to_ascii_" + exp[0])
    m.feature(strict, exp[0], shape(s, 30), exp[1] if exp[0] == "fail" else len(exp[1]) > 63)
    if got[0] == "fail" and not isinstance(got[1], (E.HostParseError, E.IDNAError)):
        m.violate("domain_to_ascii fails with the wrong error class", got=repr(got[1]))
        return
    if expect(m, "domain_to_ascii", got, exp) and got[1] != exp[1]:
        m.violate("domain_to_ascii differs", got=got[1], expected=exp[1])
        return
    if exp[0] == "ok" and not strict and u.isascii() and not any(x.lower().startswith("xn--") for x in u.split(".")):
        m.count("ascii_lowercase_law")
        if got[1] != u.lower():
            m.violate("ASCII domain is not simply lower-cased", got=got[1])
            return
    exp2 = model(M.to_unicode, u, strict)
    got2 = observe(E, P.IDNA.domain_to_unicode, s, strict)
    m.count("to_unicode_" + exp2[0])
    if expect(m, "domain_to_unicode", got2, exp2) and got2[1] != exp2[1][0]:
        m.violate("domain_to_unicode differs", got=got2[1], expected=exp2[1][0])
        return
    if exp[0] == "ok":
        # ToASCII is idempotent and ToUnicode inverts it
        r = observe(E, P.IDNA.domain_to_ascii, got[1], strict)
        if r != ("ok", got[1]):
            m.violate("domain_to_ascii is not idempotent", got=r, expected=got[1])


# ------------------------------------------------------------ round trip
def _reparse_same(m, what, P, E, u):
    g = getters(u)
    href = g["href"]
    r = observe(E, P.URL, href)
    if r[0] != "ok":
        m.violate(what + ": serialization does not reparse", href=href, error=repr(r[1]))
        return False
    g2 = getters(r[1])
    if g2 != g:
        d = [k for k in g if g[k] != g2[k]]
        m.violate(what + ": reparsing the serialization changes " + ",".join(d),
                  before={k: g[k] for k in d}, after={k: g2[k] for k in d})
        return False
    if list(r[1].search_params) != list(u.search_params):
        m.violate(what + ": reparsing changes search_params")
        return False
    if not (r[1] == u and u == r[1] and r[1].equals(u)):
        m.violate(what + ": reparsed URL is not equal to the original", href=href)
        return False
    return True


def canonical(m, what, u):
    """Structural invariants of every URL object's observable components."""
    g = getters(u)
    href = g["href"]
    bad = next((c for c in href if not ("\x20" <= c <= "\x7e")), None)
    if bad is not None:
        m.violate(what + ": href contains a raw non-printable or non-ASCII code point", href=href)
        return False
    proto = g["protocol"]
    sch = proto[:-1]
    if not proto.endswith(":") or not sch or sch != sch.lower() or not (sch[0].isascii() and sch[0].isalpha()) or any(not (c in M.ALNUM or c in "+-.") for c in sch):
        m.violate(what + ": malformed scheme", protocol=proto)
        return False
    if not href.startswith(proto):
        m.violate(what + ": href does not start with protocol", href=href)
        return False
    # exact decomposition of href into the published components
    rest = href[len(proto):]
    if g["hash"]:
        if not rest.endswith(g["hash"]):
            m.violate(what + ": href does not end with hash", href=href, hash=g["hash"])
            return False
        rest = rest[: len(rest) - len(g["hash"])]
    elif rest.endswith("#"):
        rest = rest[:-1]
    if g["search"]:
        if not rest.endswith(g["search"]):
            m.violate(what + ": search is not where href has it", href=href, search=g["search"])
            return False
        rest = rest[: len(rest) - len(g["search"])]
    elif rest.endswith("?"):
        rest = rest[:-1]
    if not rest.endswith(g["pathname"]):
        m.violate(what + ": pathname is not where href has it", href=href, pathname=g["pathname"])
        return False
    auth = rest[: len(rest) - len(g["pathname"])]
    cred = ""
    if g["username"] or g["password"]:
        cred = g["username"] + (":" + g["password"] if g["password"] else "") + "@"
    if auth not in ("", "/.", "//" + cred + g["host"]):
        m.violate(what + ": authority does not decompose into the getters", href=href, authority=auth)
        return False
    if auth in ("", "/.") and (cred or g["host"]):
        m.violate(what + ": credentials or host missing from href", href=href)
        return False
    if g["port"]:
        if g["host"] != g["hostname"] + ":" + g["port"]:
            m.violate(what + ": host is not hostname:port", host=g["host"])
            return False
        if not g["port"].isdigit() or str(int(g["port"])) != g["port"] or int(g["port"]) > 65535:
            m.violate(what + ": malformed port", port=g["port"])
            return False
        if M.SPECIAL.get(sch) == int(g["port"]):
            m.violate(what + ": default port is kept", href=href)
            return False
    elif g["host"] != g["hostname"]:
        m.violate(what + ": host is not hostname", host=g["host"])
        return False
    if sch in M.SPECIAL:
        if not auth.startswith("//"):
            m.violate(what + ": special URL without authority", href=href)
            return False
        if sch != "file" and g["hostname"] == "":
            m.violate(what + ": special URL with an empty host", href=href)
            return False
        if not g["pathname"].startswith("/"):
            m.violate(what + ": special URL path does not start with /", href=href)
            return False
        if "\\" in g["pathname"]:
            m.violate(what + ": backslash left in a special URL's path", href=href)
            return False
        if "'" in g["search"]:
            m.violate(what + ": raw ' in a special URL's query", href=href)
            return False
    if sch == "file" and (cred or g["port"]):
        m.violate(what + ": file URL with credentials or port", href=href)
        return False
    if g["hostname"] == "" and (cred or g["port"]):
        m.violate(what + ": credentials or port without host", href=href)
        return False
    if any(c in '/:;=@[\\]^|?#"<>`{} ' for c in g["username"] + g["password"]):
        m.violate(what + ": unescaped delimiter in credentials", href=href)
        return False
    if any(c in ' "#<>' for c in g["search"]):
        m.violate(what + ": unescaped delimiter in query", search=g["search"])
        return False
    if any(c in ' "<>`' for c in g["hash"]):
        m.violate(what + ": unescaped delimiter in fragment", hash=g["hash"])
        return False
    if "?" in g["pathname"] or "#" in g["pathname"]:
        m.violate(what + ": unescaped delimiter in path", pathname=g["pathname"])
        return False
    if g["pathname"].startswith("/"):
        if any(c in ' "<>`{}' for c in g["pathname"]):
            m.violate(what + ": unescaped delimiter in path", pathname=g["pathname"])
            return False
        for s in g["pathname"].split("/")[1:]:
            if M.is_single_dot(s) or M.is_double_dot(s):
                m.violate(what + ": dot segment left in the path", pathname=g["pathname"])
                return False
    h = g["hostname"]
    if not h.startswith("["):
        fb = M.FORBIDDEN_DOMAIN if sch in M.SPECIAL else M.FORBIDDEN_HOST
        if any(c in fb for c in h):
            m.violate(what + ": forbidden code point in host", hostname=h)
            return False
        if sch in M.SPECIAL and any("A" <= c <= "Z" for c in h):
            m.violate(what + ": upper-case letter in a special URL's host", hostname=h)
            return False
    return True


def roundtrip(m, s, b=None):
    P, E = H.load()
    r = observe(E, P.URL, s) if b is None else observe(E, P.URL, s, b)
    if r[0] != "ok":
        m.count("roundtrip_unparsable")
        if r[0] == "exc":
            m.violate("URL raises %s" % type(r[1]).__name__, exception=repr(r[1]))
        return
    u = r[1]
    m.count("roundtrip")
    m.feature(shape(u.href, 40), b is None)
    if canonical(m, "parsed URL", u):
        _reparse_same(m, "parsed URL", P, E, u)
    rec = observe(E, P.parse_url, s, b)
    if rec[0] != "ok" or str(rec[1]) != u.href:
        m.violate("URL and parse_url disagree", url=u.href, record=str(rec[1]))
        return
    nofrag = rec[1].serialize_url(exclude_fragment=True)
    full = rec[1].serialize_url()
    i = full.find("#")
    if nofrag != (full if i < 0 else full[:i]):
        m.violate("serialize_url(exclude_fragment=True) is not the URL without its fragment", got=nofrag, full=full)
        return
    if rec[1].serialize_path() != u.pathname or rec[1].serialize_host() != u.hostname:
        m.violate("record serializers disagree with URL getters", path=rec[1].serialize_path(), host=rec[1].serialize_host())


# ------------------------------------------------------------ setter histories
def history(m, start, ops, strict_roundtrip=True):
    """A URL object driven through a history of setter calls, search_params
    mutations and reads, checked against the model after every step."""
    P, E = H.load()
    exp = model(M.MURL, start)
    got = observe(E, P.URL, start)
    if not expect(m, "URL", got, exp):
        return
    u, mu = got[1], exp[1]
    sp0 = u.search_params
    if not cmp_getters(m, "start", u, mu):
        return
    filed = False
    copies = []
    for step, op in enumerate(ops):
        kind = op[0]
        where = "step %d %s" % (step, kind)
        before = mu.rec.tup()
        if kind == "set":
            _, attr, v = op
            failed = mu.set(attr, v)
            r = observe(E, setattr, u, attr, v)
            m.count("set_" + attr + ("_rejected" if failed else "_noop" if mu.rec.tup() == before else "_applied"))
            m.feature("set", attr, failed, shape(v, 12), mu.rec.scheme in M.SPECIAL, mu.rec.opaque, mu.rec.tup() == before)
            if r[0] == "exc":
                m.violate("setter %s raises %s" % (attr, type(r[1]).__name__), step=step, exception=repr(r[1]))
                return
            if r[0] == "fail" and not failed:
                m.violate("setter %s rejects a value the standard accepts" % attr, step=step, error=repr(r[1]))
                return
            if attr == "protocol" and mu.rec.scheme == "file" and before[0] != "file":
                filed = True
        elif kind == "copy":
            # a copy of the parameters is a list of its own
            cp = P.URLSearchParams(u.search_params)
            l = list(cp)
            if l != mu.params.l:
                m.violate("a copy of search_params differs", step=step, got=l, expected=mu.params.l)
                return
            cp.append("copy", "1")
            cp.set("a", "copy")
            cp.sort()
            if op[1]:
                cp.delete("a")
                cp.delete("copy")
            m.count("params_copied")
            copies.append((cp, list(cp)))
        else:
            fn, args = op[1], op[2]
            e = getattr(mu.params, fn)(*args)
            r = observe(E, getattr(u.search_params, fn), *args)
            m.count("params_" + fn)
            m.feature("params", fn, mu.rec.opaque, len(mu.params.l), mu.rec.query is None)
            if r[0] != "ok" or (fn in ("get", "get_all", "has") and r[1] != e):
                m.violate("search_params.%s differs" % fn, step=step, got=r, expected=e)
                return
        if not cmp_getters(m, where if kind != "set" else "after setting " + op[1], u, mu):
            return
        if u.search_params is not sp0:
            m.violate("search_params object identity changed", step=step)
            return
        if str(u.search_params) != mu.params.ser():
            m.violate("search_params serialization differs", step=step, got=str(u.search_params), expected=mu.params.ser())
            return
    for cp, l in copies:
        if list(cp) != l:
            m.violate("a copy of search_params follows the URL", got=list(cp), expected=l)
            return
    m.count("histories")
    if not filed and strict_roundtrip:
        m.count("history_roundtrips")
        if canonical(m, "URL after history", u):
            _reparse_same(m, "URL after history", P, E, u)
