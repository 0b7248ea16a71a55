"""More monitored executions: search parameters, codecs, encodings, validators,
logging, origins, urlparse, state overrides, totality, purity, threads."""
import copy
import csv
import gc
import gzip
import json
import linecache
import logging
import os
import random
import sys
import threading
import time
import tracemalloc

import refurl as M
import harness as H
from harness import observe, rec_tuple, getters
from cases import (model, expect, cmp_record, cmp_getters, shape)


# ------------------------------------------------------------ URLSearchParams
def _mk_model(kind, init):
    if kind == "none":
        return M.Params()
    if kind == "str":
        return M.Params.of_string(init)
    if kind in ("list", "tuple", "lists"):
        return M.Params([(M.usv(str(a)), M.usv(str(b))) for a, b in init])
    if kind == "dict":
        d = {}
        for k, v in init:
            d[k] = v
        e = {}
        for k, v in d.items():
            e[M.usv(str(k))] = M.usv(str(v))
        return M.Params(list(e.items()))
    if kind == "params":
        p = M.Params.of_string(init)
        return M.Params.of_string(p.ser())
    raise AssertionError(kind)


def _mk_lib(P, kind, init):
    if kind == "none":
        return P.URLSearchParams(), None
    if kind == "str":
        return P.URLSearchParams(init), None
    if kind == "list":
        arg = [tuple(x) for x in init]
    elif kind == "tuple":
        arg = tuple(tuple(x) for x in init)
    elif kind == "lists":
        arg = [list(x) for x in init]
    elif kind == "dict":
        arg = dict(init)
    elif kind == "params":
        arg = P.URLSearchParams(init)
    return P.URLSearchParams(arg), arg


def cmp_params(m, what, sp, mp, full=True):
    l = list(sp)
    if l != mp.l:
        m.violate(what + ": list of pairs differs", got=l, expected=mp.l)
        return False
    if len(sp) != len(mp.l):
        m.violate(what + ": len differs", got=len(sp), expected=len(mp.l))
        return False
    if full:
        exp = mp.ser()
        if str(sp) != exp:
            m.violate(what + ": serialization differs", got=str(sp), expected=exp)
            return False
        obs = (list(sp.entries()), list(sp.keys()), list(sp.values()), sp[:], [sp[i] for i in range(len(mp.l))],
               sp[::-1], bool(sp))
        e = (mp.l, [a for a, _ in mp.l], [b for _, b in mp.l], mp.l, mp.l, mp.l[::-1], bool(mp.l))
        for name, x, y in zip(("entries", "keys", "values", "slice", "index", "reversed slice", "truth"), obs, e):
            if x != y:
                m.violate(what + ": %s differs" % name, got=x, expected=y)
                return False
        if mp.l and sp[-1] != mp.l[-1]:
            m.violate(what + ": last element differs", got=sp[-1])
            return False
        if sp + "#x" != exp + "#x":
            m.violate(what + ": + differs", got=sp + "#x")
            return False
    return True


def probe(m, what, sp, mp, names):
    for k in names:
        if not isinstance(k, str):
            continue
        g = (sp.get(k), sp.get_all(k), sp.has(k), k in sp)
        e = (mp.get(k), mp.get_all(k), mp.has(k), mp.has(k))
        if g != e or type(g[1]) is not tuple:
            m.violate(what + ": lookup of a name differs", name=k, got=g, expected=e)
            return False
        for v in mp.get_all(k)[:2] + ("\x00none",):
            if sp.has(k, v) != mp.has(k, v):
                m.violate(what + ": has(name, value) differs", name=k, value=v, got=sp.has(k, v))
                return False
    return True


def params(m, kind, init, ops):
    P, E = H.load()
    mp = _mk_model(kind, init)
    sp, arg = _mk_lib(P, kind, init)
    m.count("ctor_" + kind)
    m.feature("ctor", kind, len(mp.l), shape(str(sp), 20))
    snap = copy.deepcopy(arg) if kind != "params" else list(arg)
    if not cmp_params(m, "constructed", sp, mp):
        return
    names = [a for a, _ in mp.l[:3]]
    for step, (fn, *a) in enumerate(ops):
        before = list(mp.l)
        if fn == "copy":
            other, om = P.URLSearchParams(sp), M.Params.of_string(mp.ser())
            if not cmp_params(m, "copy", other, om, False):
                return
            if (other == sp) != (om.l == mp.l) or (other != sp) != (om.l != mp.l):
                m.violate("== differs between a params object and its copy", got=other == sp)
                return
            other.append("copy", "1")
            other.delete(names[0] if names else "x")
            m.count("op_copy")
        elif fn == "eqlist":
            o = P.URLSearchParams(list(mp.l))
            if not (o == sp) or o != sp or (sp == mp.l) or sp == None or sp == str(sp):  # noqa: E711
                m.violate("equality with an equal list of pairs differs", step=step)
                return
            if mp.l:
                o2 = P.URLSearchParams(mp.l[:-1])
                o3 = P.URLSearchParams(mp.l[::-1])
                if o2 == sp or (o3 == sp) != (mp.l[::-1] == mp.l):
                    m.violate("equality ignores order or length", step=step)
                    return
            m.count("op_eq")
        elif fn == "probe":
            if not probe(m, "step %d" % step, sp, mp, a):
                return
            m.count("op_probe")
        else:
            e = getattr(mp, fn)(*a)
            r = observe(E, getattr(sp, fn), *a)
            m.count("op_" + fn)
            m.count("changed" if mp.l != before else "unchanged")
            m.feature(fn, len(before), len(mp.l), mp.l != before, shape(str(a[0]) if a else "", 8), len(a))
            if r[0] != "ok" or r[1] != e:
                m.violate("%s differs" % fn, step=step, args=a, got=r, expected=e)
                return
            if a and isinstance(a[0], str):
                names.append(a[0])
        if not cmp_params(m, "after step %d %s" % (step, fn), sp, mp):
            return
    if not probe(m, "end", sp, mp, names[-6:]):
        return
    if arg is not None and (list(arg) if kind == "params" else arg) != snap:
        m.violate("constructor argument was modified", got=arg, expected=snap)
        return
    # serialize / reparse keeps the pairs
    r = P.URLSearchParams(str(sp))
    if list(r) != mp.l:
        m.violate("serialization does not parse back to the same pairs", text=str(sp), got=list(r), expected=mp.l)


def bad_ctor(m, which):
    P, E = H.load()
    m.count("bad_ctor")
    m.feature("bad_ctor", which)
    try:
        if which == "triple":
            P.URLSearchParams([("a", "b"), ("c", "d", "e")])
        elif which == "single":
            P.URLSearchParams([("a",)])
        elif which == "int":
            P.URLSearchParams(5)
        elif which == "set":
            P.URLSearchParams({"ab"})
    except (ValueError, TypeError):
        return
    m.violate("malformed initializer accepted", which=which)


# ------------------------------------------------------------ urlencoded
def qsl(m, b):
    P, E = H.load()
    e = M.qsl(b)
    g = observe(E, P.parse_qsl, b)
    m.count("parse_qsl")
    m.feature("qsl", len(e), shape(b.decode("latin-1"), 30))
    if g != ("ok", e):
        m.violate("parse_qsl differs from the standard", got=g, expected=e)
        return
    s = P.urlencode(g[1])
    if P.parse_qsl(s.encode("ascii")) != e:
        m.violate("parse_qsl(urlencode(pairs)) is not pairs", text=s)


def uenc(m, pairs, enc):
    P, E = H.load()
    pairs = [tuple(p) for p in pairs]
    e = M.urlencode(pairs, "utf-8" if enc is None else enc)
    g = observe(E, P.urlencode, pairs) if enc is None else observe(E, P.urlencode, pairs, enc)
    m.count("urlencode" if enc is None else "urlencode_legacy")
    m.feature("enc", enc, len(pairs), shape(e, 24))
    if g != ("ok", e):
        m.violate("urlencode differs from the standard", got=g, expected=e)
        return
    if enc is None:
        back = P.parse_qsl(e.encode("ascii"))
        if back != [(M.usv(a), M.usv(b)) for a, b in pairs]:
            m.violate("parse_qsl does not invert urlencode", text=e, got=back)
            return
        if any(c not in M.ALNUM and c not in "*-._%+=&" for c in e):
            m.violate("urlencode output has a forbidden character", got=e)


# ------------------------------------------------------------ percent codec
def pcodec(m, s):
    P, E = H.load()
    m.count("codec")
    m.feature("codec", shape(s, 30))
    u = M.usv(s)
    b = u.encode("utf-8")
    g = observe(E, P.utf8_encode, s)
    if g != ("ok", b):
        m.violate("utf8_encode differs", got=g, expected=b)
        return
    if P.utf8_decode(b) != u:
        m.violate("utf8_decode(utf8_encode(s)) differs", got=P.utf8_decode(b), expected=u)
        return
    d = observe(E, P.string_percent_decode, s)
    if d != ("ok", M.percent_decode(b)):
        m.violate("string_percent_decode differs", got=d, expected=M.percent_decode(b))
        return
    e = P.utf8_percent_encode(s, "")
    if P.string_percent_decode(e) != b:
        m.violate("percent-encoding does not round-trip", got=e)
        return
    if P.string_percent_encode(s, "") != e:
        m.violate("string_percent_encode and utf8_percent_encode disagree", got=e)


ALWAYS = frozenset(M.ALNUM | set("_.-~"))


def pencode(m, s, safe, enc, plus):
    P, E = H.load()
    m.count("pencode")
    keep = ALWAYS | set(safe)
    pset = frozenset(b for b in range(256) if b > 0x7E or chr(b) not in keep)
    u = M.usv(s)
    if plus:
        # the space becomes + ; a literal + is encoded unless it is safe
        e = M.pe_after_encoding(u, enc, pset, True)
    else:
        e = M.pe_after_encoding(u, enc, pset)
    g = observe(E, P.string_percent_encode, s, safe, enc, plus)
    m.feature("pencode", enc, plus, len(safe), shape(e, 20))
    if g != ("ok", e):
        m.violate("string_percent_encode differs", got=g, expected=e)
        return
    if enc == "utf-8":
        if P.utf8_percent_encode(s, safe, plus) != e:
            m.violate("utf8_percent_encode differs", got=P.utf8_percent_encode(s, safe, plus), expected=e)
            return
        if "%" not in safe and not (plus and "+" in safe):
            t = e.replace("+", " ") if plus else e
            if P.string_percent_decode(t) != u.encode("utf-8"):
                m.violate("decoding does not invert encoding", got=e)


def udecode(m, b):
    P, E = H.load()
    m.count("utf8_decode")
    e = M.utf8_decode(b)
    m.feature("ud", len(b), e.count("\ufffd"), shape(e, 12))
    g = observe(E, P.utf8_decode, b)
    if g != ("ok", e):
        m.violate("utf8_decode differs", got=g, expected=e)


# ------------------------------------------------------------ encodings
UTF_ALIASES = ("utf-8", "UTF-8", "utf8", "utf_8", "utf-16-le", "utf-16-be", "utf-16le", "utf-16be", "utf_16_le", "utf_16_be", "UTF-16LE", "UTF-16BE")
LEGACY = ("windows-1252", "windows-1251", "windows-1250", "iso-8859-1", "iso-8859-2", "iso-8859-15", "koi8-r", "koi8-u", "shift_jis", "euc-jp", "euc-kr",
          "gbk", "gb18030", "big5", "ascii", "macintosh", "cp866", "windows-1255", "Windows-1252", "SHIFT_JIS")


def menc(e):
    return "utf-8" if e in UTF_ALIASES else e.lower()


def encq(m, s, b, enc, fn):
    """A URL parsed with an encoding override."""
    P, E = H.load()
    exp = model(M.parse_url, s, b, menc(enc))
    m.count("enc_" + exp[0])
    if exp[0] == "ok":
        q = exp[1].query
        m.count("enc_charref" if q and "%26%23" in q else "enc_query" if q else "enc_noquery")
        m.count("enc_legacy_applied" if menc(enc) != "utf-8" and exp[1].special and exp[1].scheme not in ("ws", "wss") else "enc_utf8")
        m.feature(fn, enc, exp[1].scheme in M.SPECIAL and exp[1].scheme, b is None, shape(q or "", 20))
    if fn == "parse_url":
        got = observe(E, P.parse_url, s, b, enc)
        if expect(m, fn, got, exp):
            cmp_record(m, fn, got[1], exp[1])
    elif fn == "basic":
        lb = None
        if b is not None:
            mb, ob = model(M.parse_url, b, None, menc(enc)), observe(E, P.parse_url, b, None, enc)
            if mb[0] != "ok":
                return
            if not expect(m, "base", ob, mb):
                return
            lb = ob[1]
        got = observe(E, P.BasicURLParser.parse, s, lb, enc)
        if expect(m, fn, got, exp):
            cmp_record(m, fn, got[1], exp[1])
    elif fn == "override":
        # the query of an existing record rewritten in place
        exp = model(M.parse_url, b or "http://h/p?q#f")
        if exp[0] != "ok":
            return
        got = observe(E, P.parse_url, b or "http://h/p?q#f")
        if not expect(m, "parse_url", got, exp):
            return
        mr, rec = exp[1], got[1]
        mr.query = rec.query = ""
        e = model(M.parse, s, encoding=menc(enc), url=mr, override="query")
        g = observe(E, P.BasicURLParser.parse, s, encoding=enc, url=rec, state_override=P.URLParserState.QUERY_STATE)
        m.count("enc_override")
        if expect(m, fn, ("ok", None) if g[0] == "ok" else g, ("ok", None) if e[0] == "ok" else e):
            cmp_record(m, "query override with an encoding", rec, mr)
    elif fn == "urlparse":
        got = observe(E, P.urlparse, s, b, enc)
        if expect(m, fn, got, exp):
            e = M.urlparse_fields(exp[1])
            if tuple(got[1]) != e:
                m.violate("urlparse with an encoding differs", got=tuple(got[1]), expected=e)


def uparse(m, s, b, frag, enc=None):
    P, E = H.load()
    exp = model(M.parse_url, s, b, menc(enc or "utf-8"))
    if enc is not None:
        m.count("urlparse_encoding")
        got = observe(E, P.urlparse, s, b, enc) if frag is None else observe(E, P.urlparse, s, b, enc, frag)
    elif frag is None:
        got = observe(E, P.urlparse, s) if b is None else observe(E, P.urlparse, s, b)
    else:
        got = observe(E, P.urlparse, s, base=b, allow_fragments=frag)
    m.count("urlparse_" + exp[0])
    m.feature("urlparse", frag, shape(s, 24), exp[0])
    if not expect(m, "urlparse", got, exp):
        return
    e = M.urlparse_fields(exp[1], True if frag is None else frag)
    g = got[1]
    if tuple(g) != e or type(g).__name__ != "ParseResult":
        m.violate("urlparse fields differ", got=tuple(g), expected=e)
        return
    if (g.scheme, g.netloc, g.path, g.params, g.query, g.fragment) != e:
        m.violate("urlparse named fields differ", got=tuple(g), expected=e)
        return
    if not frag and frag is not None:
        m.count("urlparse_nofragment")
        return
    # the fields carry the whole URL: href is rebuilt from them
    r = exp[1]
    href = g.scheme + ":" + ("//" + g.netloc if r.host is not None else "")
    if r.host is None and not r.opaque and len(r.path) > 1 and r.path[0] == "":
        href += "/."
    href += g.path + (";" + g.params if ";" in r.ser_path() else "")
    href += ("?" + g.query if r.query is not None else "") + ("#" + g.fragment if r.fragment is not None else "")
    if href != r.ser():
        m.violate("urlparse fields do not rebuild the URL", got=href, expected=r.ser())


# ------------------------------------------------------------ state override
STATES = {"authority": "AUTHORITY_STATE", "scheme start": "SCHEME_START_STATE", "host": "HOST_STATE", "hostname": "HOSTNAME_STATE", "port": "PORT_STATE",
          "path start": "PATH_START_STATE", "query": "QUERY_STATE", "fragment": "FRAGMENT_STATE"}


def override(m, start, ops):
    """A URLRecord rewritten in place through BasicURLParser's state override."""
    P, E = H.load()
    exp, got = model(M.parse_url, start), observe(E, P.parse_url, start)
    if not expect(m, "parse_url", got, exp):
        return
    rec, mr = got[1], exp[1]
    for step, (state, s) in enumerate(ops):
        if state == "path start":
            if mr.opaque:
                continue
            mr.path = []
            rec.path = []
        elif state in ("authority", "host", "hostname") and mr.opaque:
            continue
        elif state == "port" and mr.no_userpassport:
            continue
        elif state == "query":
            mr.query = rec.query = ""
        elif state == "fragment":
            mr.fragment = rec.fragment = ""
        e = model(M.parse, s, url=mr, override=state)
        g = observe(E, P.BasicURLParser.parse, s, url=rec, state_override=P.URLParserState[STATES[state]])
        m.count("override_%s_%s" % (state.replace(" ", "_"), e[0]))
        m.feature("override", state, e[0], shape(s, 14), mr.special)
        if g[0] == "exc":
            m.violate("state override raises %s" % type(g[1]).__name__, step=step, state=state, exception=repr(g[1]))
            return
        if g[0] == "fail" and e[0] == "ok":
            m.violate("state override rejects what the standard accepts", step=step, state=state, error=repr(g[1]))
            return
        if g[0] == "ok" and g[1] is not rec and g[1] is not None:
            m.violate("state override does not update the given record", step=step)
            return
        if not cmp_record(m, "after override " + state, rec, mr):
            return


# ------------------------------------------------------------ records
def record(m, t):
    """Serialization of a directly constructed URLRecord."""
    P, E = H.load()
    r = M.Rec()
    r.scheme, r.username, r.password, r.host, r.port, path, r.query, r.fragment = t
    r.path = path if isinstance(path, str) else list(path)
    rec = P.URLRecord(scheme=t[0], username=t[1], password=t[2], host=t[3], port=t[4],
                      path=path if isinstance(path, str) else list(path), query=t[6], fragment=t[7])
    m.count("records")
    m.feature("rec", t[0], bool(t[1]), bool(t[2]), type(t[3]).__name__, t[4] is None, isinstance(path, str), len(path) if not isinstance(path, str) else 0, t[6] is None, t[7] is None)
    e = r.ser()
    g = (rec.serialize_url(), str(rec), rec.href, rec.serialize_url(exclude_fragment=True), rec.serialize_path(), rec.serialize_host(),
         rec.has_opaque_path(), rec.includes_credentials(), rec.is_special(), rec.is_not_special(), rec.cannot_have_username_password_port())
    x = (e, e, e, r.ser(True), r.ser_path(), "" if r.host is None else M.ser_host(r.host),
         r.opaque, bool(r.username or r.password), r.special, not r.special, r.no_userpassport)
    if g != x:
        m.violate("URLRecord views differ from the standard", got=g, expected=x)
        return
    if rec_tuple(rec) != r.tup():
        m.violate("serializing changed the record", got=rec_tuple(rec), expected=r.tup())
        return
    if not r.opaque:
        rec.shorten_path()
        r.shorten()
        if rec_tuple(rec) != r.tup():
            m.violate("shorten_path differs", got=rec.path, expected=r.path)


# ------------------------------------------------------------ origin / equality
def morigin(r):
    return r.origin()


def origin(m, s1, s2):
    P, E = H.load()
    a, b = observe(E, P.URL, s1), observe(E, P.URL, s2)
    ma, mb = model(M.parse_url, s1), model(M.parse_url, s2)
    if not expect(m, "URL", a, ma) or not expect(m, "URL", b, mb):
        return
    a, b, ma, mb = a[1], b[1], ma[1], mb[1]
    ra, rb = P.parse_url(s1), P.parse_url(s2)
    for u, r, x in ((a, ra, ma), (b, rb, mb)):
        eo = morigin(x)
        go = r.origin
        g = None if go is None else (go.scheme, go.host, go.port, go.domain)
        e = None if eo is None else (eo[0], eo[1], eo[2], None)
        if g != e:
            m.violate("origin of a record differs", got=g, expected=e)
            return
        if u.origin != x.ser_origin() or (go is not None and str(go) != x.ser_origin()):
            m.violate("serialized origin differs", got=u.origin, expected=x.ser_origin())
            return
        m.count("origin_opaque" if eo is None else "origin_tuple")
        if x.scheme == "blob":
            m.count("origin_blob")
        if not (u == u and u.equals(u) and r == r and not (u != u)):
            m.violate("equality is not reflexive", href=u.href)
            return
        for o in (None, u.href, 5, object(), r, [u]):
            if u == o or not (u != o):
                m.violate("URL equals a non-URL", other=repr(o))
                return
        if r == u or r == r.href or r is None:
            m.violate("URLRecord equals a non-record")
            return
    e = ma.ser() == mb.ser()
    ef = ma.ser(True) == mb.ser(True)
    m.count("pair_equal" if e else "pair_equal_but_fragment" if ef else "pair_different")
    m.feature("eq", e, ef, shape(s1, 16), shape(s2, 16))
    got = (a == b, b == a, not (a != b), a.equals(b), b.equals(a), a.equals(b, exclude_fragments=False), ra == rb, rb == ra, not (ra != rb), ra.equals(rb), rb.equals(ra))
    if any(x is not e for x in got):
        m.violate("equality differs from equality of serializations", got=got, expected=e)
        return
    got = (a.equals(b, True), b.equals(a, exclude_fragments=True), ra.equals(rb, exclude_fragments=True), rb.equals(ra, True))
    if any(x is not ef for x in got):
        m.violate("equality without fragments differs", got=got, expected=ef)
        return
    if e and not (hash_law(m, a, b) and hash_law(m, ra, rb) and hash_law(m, a.search_params, b.search_params)):
        return
    oa, ob = ra.origin, rb.origin
    if oa is not None and ob is not None:
        same = morigin(ma) == morigin(mb)
        m.count("same_origin" if same else "cross_origin")
        if (oa.is_same_origin(ob), ob.is_same_origin(oa)) != (same, same):
            m.violate("is_same_origin differs", got=oa.is_same_origin(ob), expected=same)
            return
        if (oa == ob) != same or (same and hash(oa) != hash(ob)):
            m.violate("equal origins differ", got=oa == ob, expected=same)
            return
        for d1, d2 in ((None, None), ("x", None), (None, "x"), ("x", "x"), ("x", "y")):
            o1, o2 = oa._replace(domain=d1), ob._replace(domain=d2)
            e = (oa.scheme == ob.scheme and d1 is not None and d1 == d2) or (same and d1 is None and d2 is None)
            if bool(o1.is_same_origin_domain(o2)) != e or bool(o2.is_same_origin_domain(o1)) != e:
                m.violate("is_same_origin_domain differs", domains=(d1, d2), got=o1.is_same_origin_domain(o2), expected=e)
                return
            if o1.is_same_origin(o2) != same:
                m.violate("is_same_origin depends on domain", domains=(d1, d2))
                return


def hash_law(m, a, b):
    """Equal values that can be hashed have one hash (today none of them can)."""
    try:
        x, y = hash(a), hash(b)
    except TypeError:
        m.count("unhashable")
        return True
    if a == b and x != y:
        m.violate("equal %s have different hash values" % type(a).__name__)
        return False
    return True


def equal_live(m, s1, s2, ops):
    """Equality and origin of two URLs and of two records that change: what
    they answered before must not be remembered."""
    P, E = H.load()
    us = [P.URL(s1), P.URL(s2)]
    ms = [M.MURL(s1), M.MURL(s2)]
    rs = [P.parse_url(s1), P.parse_url(s2)]
    ns = [M.parse_url(s1), M.parse_url(s2)]
    m.feature("equal_live", tuple((w, o[:2]) for w, o in ops))
    for w, o in [(0, None)] + list(ops):
        if o is not None and o[0] == "field":
            v = o[2]
            if o[1] == "path" and not ns[w].opaque:
                # in place
                rs[w].path[:] = v
                ns[w].path[:] = v
            elif o[1] != "path":
                setattr(rs[w], o[1], v)
                setattr(ns[w], o[1], v)
        elif o is not None and o[0] == "set":
            ms[w].set(o[1], o[2])
            observe(E, setattr, us[w], o[1], o[2])
        elif o is not None:
            getattr(ms[w].params, o[1])(*o[2])
            observe(E, getattr(us[w].search_params, o[1]), *o[2])
        for what, a, b, x, y in (("URL", us[0], us[1], ms[0].rec, ms[1].rec), ("URLRecord", rs[0], rs[1], ns[0], ns[1])):
            e, ef = x.ser() == y.ser(), x.ser(True) == y.ser(True)
            m.count("live_equal" if e else "live_equal_but_fragment" if ef else "live_different")
            got = (a == b, b == a, a.equals(b), b.equals(a, False))
            gf = (a.equals(b, True), b.equals(a, exclude_fragments=True))
            if any(z is not e for z in got) or any(z is not ef for z in gf) or (a != b) is e:
                m.violate("%s equality differs after a change" % what, op=o, got=(got, gf), expected=(e, ef), left=x.ser(), right=y.ser())
                return
            if e and not hash_law(m, a, b):
                return
        for u, x in zip(us, ms):
            if u.origin != x.rec.ser_origin():
                m.violate("origin differs after a change", op=o, got=u.origin, expected=x.rec.ser_origin())
                return
        so = [None if r.origin is None else r.origin[:3] for r in rs]
        if so != [morigin(x) for x in ns]:
            m.violate("origin of a record differs after a change", op=o, got=so, expected=[morigin(x) for x in ns])
            return


# ------------------------------------------------------------ validity
KNOWN_TYPES = frozenset("""domain-to-ASCII domain-to-Unicode domain-invalid-code-point host-invalid-code-point
IPv4-empty-part IPv4-too-many-parts IPv4-non-numeric-part IPv4-non-decimal-part IPv4-out-of-range-part
IPv6-unclosed IPv6-invalid-compression IPv6-too-many-pieces IPv6-multiple-compression IPv6-invalid-code-point
IPv6-too-few-pieces IPv4-in-IPv6-too-many-pieces IPv4-in-IPv6-invalid-code-point IPv4-in-IPv6-out-of-range-part
IPv4-in-IPv6-too-few-parts invalid-URL-unit special-scheme-missing-following-solidus missing-scheme-non-relative-URL
invalid-reverse-solidus invalid-credentials host-missing port-out-of-range port-invalid
file-invalid-Windows-drive-letter file-invalid-Windows-drive-letter-host undefined""".split())


def vstate_ok(m, what, v, valid):
    n = v.validation_errors
    if not (isinstance(n, int) and len(v.error_types) == len(v.descriptions) == n and v.valid is (n == 0)):
        m.violate(what + ": ValidityState is inconsistent", state=(v.valid, v.error_types, n))
        return False
    if valid is not None and v.valid is not valid:
        m.violate(what + ": ValidityState.valid disagrees with the result", state=(v.valid, v.error_types), result=valid)
        return False
    for t, d in zip(v.error_types, v.descriptions):
        if t not in KNOWN_TYPES:
            m.violate(what + ": unknown error type", type=t)
            return False
        if t != "undefined" and not d.startswith(t + ":"):
            m.violate(what + ": description does not belong to its error type", type=t, description=d)
            return False
    return True


_schemes = None


def schemes():
    global _schemes
    if _schemes is None:
        try:
            # the registry as shipped with the code under test
            with gzip.open(os.path.join(H.PKG, "data", "uri-schemes-1.csv.gz"), "rt", encoding="utf-8") as f:
                rows = list(csv.reader(f))
            col = rows[0].index("URI Scheme")
            _schemes = frozenset(r[col] for r in rows[1:] if r and r[col] != "shttp (OBSOLETE)")
        except (OSError, ValueError, IndexError):
            with open(os.path.join(H.VERIF, "data", "schemes.json")) as f:
                _schemes = frozenset(json.load(f))
    return _schemes


def vhost(m, s, which, stale):
    P, E = H.load()
    f = getattr(P.HostValidator, which)
    e = {"is_valid": M.valid_host, "is_valid_domain": M.valid_domain, "is_valid_ipv4_address": M.valid_ipv4,
         "is_valid_ipv6_address": M.valid_ipv6, "is_valid_opaque_host": M.valid_opaque_host}[which](s)
    m.count("%s_%s" % (which, e))
    m.feature(which, e, shape(s, 30))
    g = observe(E, f, s)
    if g != ("ok", e) or g[1] is not e:
        m.violate("HostValidator.%s differs" % which, got=g, expected=e)
        return
    v = P.ValidityState()
    if stale is not None:
        P.HostValidator.is_valid(stale, validity=v)
        P.URL.can_parse(stale if ":" in stale else "http://h:%/" + stale, validity=v)
    g = observe(E, f, s, validity=v)
    if g != ("ok", e):
        m.violate("HostValidator.%s with a ValidityState differs" % which, got=g, expected=e)
        return
    vstate_ok(m, which, v, e)


def unit_free(errs, flag="file-invalid-Windows-drive-letter-host"):
    """After a drive-letter host the letter is looked at once more as a path
    segment; whether its | is reported again is not part of the contract."""
    return [t for t in errs if t != "invalid-URL-unit"] if flag in errs else errs


def vurl(m, s, b, stale):
    """URLValidator.is_valid and can_parse: verdict and reported errors."""
    P, E = H.load()
    errs = []
    exp = model(M.parse_url, s, b, err=errs.append)
    ok = exp[0] == "ok"
    registered = ok and exp[1].scheme in schemes()
    e = ok and not errs and registered
    m.count("url_valid" if e else "url_parsable_invalid" if ok else "url_unparsable")
    for t in errs:
        m.count("err_" + t)
    m.feature("vurl", tuple(errs[:6]), e, ok, registered)
    g = observe(E, P.URLValidator.is_valid, s, b)
    if g != ("ok", e):
        m.violate("URLValidator.is_valid differs", got=g, expected=e, errors=errs, registered=registered)
        return
    v = P.ValidityState()
    if stale is not None:
        P.URLValidator.is_valid(stale, validity=v)
    g = observe(E, P.URLValidator.is_valid, s, b, validity=v)
    if g != ("ok", e):
        m.violate("URLValidator.is_valid with a ValidityState differs", got=g, expected=e)
        return
    if not vstate_ok(m, "URLValidator.is_valid", v, e):
        return
    want = errs[::-1]
    if ok:
        got = list(v.error_types)
        if not registered:
            if not got or got[0] != "undefined":
                m.violate("unregistered scheme is not reported first", got=got)
                return
            got = got[1:]
        if unit_free(got) != unit_free(want):
            m.violate("reported validation errors differ from the standard", got=got, expected=want)
            return
    # can_parse reports the same errors, and its verdict is parsability
    g = observe(E, P.URL.can_parse, s, b, validity=v)
    if g != ("ok", ok):
        m.violate("can_parse differs", got=g, expected=ok)
        return
    if not vstate_ok(m, "can_parse", v, None):
        return
    if ok and unit_free(v.error_types) != unit_free(want):
        m.violate("can_parse reports other validation errors", got=v.error_types, expected=want)
        return
    if not ok and v.valid:
        m.violate("a failed parse reports no validation error")


def vscheme(m, s):
    P, E = H.load()
    e = s.isascii() and s.lower() in schemes() and s != ""
    m.count("scheme_%s" % e)
    m.feature("scheme", s if e else shape(s))
    v = P.ValidityState()
    g = observe(E, P.URLValidator.is_valid_url_scheme, s)
    h = observe(E, P.URLValidator.is_valid_url_scheme, s, validity=v)
    if g != ("ok", e) or h != ("ok", e):
        m.violate("is_valid_url_scheme differs", got=(g, h), expected=e)
        return
    vstate_ok(m, "is_valid_url_scheme", v, e)


# ------------------------------------------------------------ logging
class Sink(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.records = []
        self.broken = None
        self.reenter = None

    def emit(self, record):
        try:
            self.records.append((record.levelno, record.getMessage(), record.name))
        except Exception as e:
            self.broken = (repr(e), record.msg)
        if self.reenter is not None:
            f, self.reenter = self.reenter, None
            try:
                f()
            finally:
                self.reenter = f

    def handle(self, record):
        self.emit(record)
        return True


_sink = None


def sink():
    global _sink
    if _sink is None:
        _sink = Sink()
        root = logging.getLogger("urlstd")
        root.addHandler(_sink)
        root.propagate = False
    return _sink


class at_level:
    def __init__(self, level, reenter=None):
        self.level, self.re = level, reenter

    def __enter__(self):
        self.s = sink()
        self.s.records = []
        self.s.broken = None
        self.s.reenter = self.re
        lg = logging.getLogger("urlstd")
        self.old = lg.level
        lg.setLevel(self.level)
        return self.s

    def __exit__(self, *a):
        logging.getLogger("urlstd").setLevel(self.old)
        self.s.reenter = None
        return False


def _apis(P):
    return {
        "parse_url": lambda s, b, **k: P.parse_url(s, b, **k),
        "can_parse": lambda s, b, **k: P.URL.can_parse(s, b, **k),
        "is_valid": lambda s, b, **k: P.URLValidator.is_valid(s, b, **k),
        "host": lambda s, b, **k: P.Host.parse(s, **k),
        "opaque": lambda s, b, **k: P.Host.parse(s, True, **k),
        "host_valid": lambda s, b, **k: P.HostValidator.is_valid(s, **k),
        "domain_valid": lambda s, b, **k: P.HostValidator.is_valid_domain(s, **k),
        "ipv6_valid": lambda s, b, **k: P.HostValidator.is_valid_ipv6_address(s, **k),
    }


def _norm(P, r):
    if r[0] == "ok":
        v = r[1]
        return ("ok", rec_tuple(v) if isinstance(v, P.URLRecord) else v)
    return (r[0], type(r[1]).__name__, str(r[1]))


def logs(m, api, s, b, reenter):
    """Observation (log level, handlers, ValidityState) never changes results,
    and what is reported is consistent across the channels."""
    P, E = H.load()
    f = _apis(P)[api]
    base = _norm(P, observe(E, f, s, b))
    re_f = None
    if reenter is not None:
        def re_f():
            observe(E, P.parse_url, reenter)
            observe(E, P.URLValidator.is_valid, reenter)
    for level in (logging.DEBUG, logging.INFO, logging.CRITICAL + 1):
        with at_level(level, re_f) as sk:
            r = _norm(P, observe(E, f, s, b))
        if r != base:
            m.violate("result depends on the log level", level=level, got=r, expected=base)
            return
        if sk.broken:
            m.violate("log record cannot be formatted", record=sk.broken)
            return
        m.count("log_records", len(sk.records))
        if level > logging.CRITICAL and sk.records:
            m.violate("records emitted although logging is off", records=sk.records[:3])
            return
    validating = api in ("can_parse", "is_valid", "host_valid", "domain_valid", "ipv6_valid")
    quiet, loud = P.ValidityState(), P.ValidityState(disable_logging=False)
    with at_level(logging.DEBUG) as sk:
        r = _norm(P, observe(E, f, s, b, validity=quiet))
        nq = list(sk.records)
    if r != base:
        m.violate("result depends on passing a ValidityState", got=r, expected=base)
        return
    if nq:
        m.violate("disable_logging=True still logs", records=nq[:3])
        return
    with at_level(logging.INFO, re_f) as sk:
        r = _norm(P, observe(E, f, s, b, validity=loud))
        nl = list(sk.records)
    if r != base:
        m.violate("result depends on disable_logging", got=r, expected=base)
        return
    if not quiet.disable_logging or loud.disable_logging:
        m.violate("the call changed disable_logging")
        return
    if (quiet.valid, quiet.error_types, quiet.descriptions, quiet.validation_errors) != (loud.valid, loud.error_types, loud.descriptions, loud.validation_errors):
        m.violate("ValidityState depends on disable_logging", quiet=quiet.error_types, loud=loud.error_types)
        return
    if not vstate_ok(m, api, loud, None):
        return
    m.count("validity_errors", loud.validation_errors)
    m.feature("logs", api, tuple(loud.error_types[:6]), base[0], reenter is not None)
    if reenter is None and api in ("parse_url", "can_parse", "host", "opaque"):
        msgs = [t for _, t, _ in nl]
        if msgs != loud.descriptions[::-1]:
            m.violate("log records and ValidityState disagree", log=msgs, state=loud.descriptions)
            return
        m.count("log_vs_state")
    if reenter is None and not validating:
        with at_level(logging.INFO) as sk:
            observe(E, f, s, b)
        if [t for _, t, _ in sk.records] != loud.descriptions[::-1]:
            m.violate("log records without and with a ValidityState differ", log=sk.records[:4], state=loud.descriptions)
            return
        if base[0] == "ok" and any(l >= logging.ERROR for l, _, _ in sk.records):
            m.violate("a successful call logs an error", records=sk.records[:4])
            return
        if base[0] == "fail" and not any(l >= logging.ERROR for l, _, _ in sk.records):
            m.violate("a failed call logs no error", records=sk.records[:4])
            return
        m.count("log_levels")


def logs_hist(m, start, ops):
    """A history of assignments and in-place rewrites gives the same states
    whatever the log level is."""
    P, E = H.load()
    is_rec = not isinstance(start, str)

    def run():
        out = []
        if is_rec:
            t = start
            x = P.URLRecord(scheme=t[0], username=t[1], password=t[2], host=t[3], port=t[4], path=t[5] if isinstance(t[5], str) else list(t[5]), query=t[6], fragment=t[7])
        else:
            x = P.URL(start)
        for op in ops:
            if op[0] == "set":
                r = observe(E, setattr, x, op[1], op[2])
            elif op[0] == "params":
                r = observe(E, getattr(x.search_params, op[1]), *op[2])
            else:
                r = observe(E, P.BasicURLParser.parse, op[2], url=x, state_override=P.URLParserState[STATES[op[1]]])
                r = r if r[0] != "ok" else ("ok", None)
            out.append((r[0], str(r[1]), rec_tuple(x) if is_rec else (H.getters(x), list(x.search_params))))
        return out
    with at_level(logging.CRITICAL + 1):
        base = run()
    for level in (logging.DEBUG, logging.INFO, logging.WARNING):
        with at_level(level) as sk:
            r = run()
        m.count("history_log_records", len(sk.records))
        if sk.broken:
            m.violate("log record cannot be formatted", record=sk.broken)
            return
        if r != base:
            i = next(i for i in range(len(ops)) if r[i] != base[i])
            m.violate("a history's result depends on the log level", level=level, step=i, got=r[i], expected=base[i])
            return
    m.count("log_histories")
    m.feature("logs_hist", is_rec, tuple((o[0], o[1]) for o in ops[:3]), base[-1][0] if base else None)


# ------------------------------------------------------------ totality
def total(m, fn, args, limit):
    """One API call: must end, within the step bound, with a result or an
    exception of the URLParseError family."""
    P, E = H.load()
    f, ok_types = TOTAL[fn](P)
    n = H.total_len(args)
    if limit:
        with H.Steps(H.step_bound(n)) as st:
            try:
                r = observe(E, f, *args)
            except H.StepLimit as e:
                r = ("steps", e)
        m.count("steps_bounded")
        m.counts["max_steps_per_char_x100"] = max(m.counts.get("max_steps_per_char_x100", 0), 100 * st.n // (n + 60))
    else:
        r = observe(E, f, *args)
    m.count("total_" + fn)
    m.count("total_result_" + r[0])
    m.feature("total", fn, r[0], type(r[1]).__name__, shape(str(args[0]) if args else "", 20), min(n, 4096).bit_length())
    if r[0] == "steps":
        m.violate("%s takes more than %d interpreter steps on input of length %d" % (fn, H.step_bound(n), n))
    elif r[0] == "exc":
        m.violate("%s raises %s, not a URLParseError" % (fn, type(r[1]).__name__), exception=H.short(repr(r[1])))
    elif r[0] == "ok" and not isinstance(r[1], ok_types):
        m.violate("%s returns a %s" % (fn, type(r[1]).__name__))
    elif r[0] == "ok" and fn in ("parse", "resolve"):
        c = observe(E, P.URL.can_parse, *args)
        if c != ("ok", True):
            m.violate("can_parse is not True although the URL parses", got=c)
    elif r[0] == "fail" and fn in ("parse", "resolve", "URL"):
        c = observe(E, P.URL.can_parse, *args)
        if c != ("ok", False) and not (fn == "URL" and len(args) > 1):
            m.violate("can_parse is not False although parsing fails", got=c)


def _never(E, f):
    return f


TOTAL = {
    "parse": lambda P: (P.parse_url, P.URLRecord),
    "resolve": lambda P: (P.parse_url, P.URLRecord),
    "URL": lambda P: (lambda *a: P.URL(*a), P.URL),
    "URLref": lambda P: (lambda s, b: P.URL(s, P.URL(b)), P.URL),
    "href": lambda P: (lambda *a: P.URL(*a).href, str),
    "can_parse": lambda P: (P.URL.can_parse, bool),
    "is_valid": lambda P: (P.URLValidator.is_valid, bool),
    "scheme_valid": lambda P: (P.URLValidator.is_valid_url_scheme, bool),
    "host": lambda P: (P.Host.parse, (str, int, tuple)),
    "host_valid": lambda P: (P.HostValidator.is_valid, bool),
    "domain_valid": lambda P: (P.HostValidator.is_valid_domain, bool),
    "ipv4_valid": lambda P: (P.HostValidator.is_valid_ipv4_address, bool),
    "ipv6_valid": lambda P: (P.HostValidator.is_valid_ipv6_address, bool),
    "opaque_valid": lambda P: (P.HostValidator.is_valid_opaque_host, bool),
    "to_ascii": lambda P: (P.IDNA.domain_to_ascii, str),
    "to_unicode": lambda P: (P.IDNA.domain_to_unicode, str),
    "urlparse": lambda P: (P.urlparse, tuple),
    "params": lambda P: (lambda s: str(P.URLSearchParams(s)), str),
    "qsl": lambda P: (lambda s: P.parse_qsl(s), list),
    "params_op": lambda P: (lambda q, op, where: _params_op(P, q, op, where), str),
    "pdecode": lambda P: (P.string_percent_decode, bytes),
    "pencode": lambda P: (lambda s: P.utf8_percent_encode(s, ""), str),
    "set": lambda P: (lambda u, a, v: _set(P, u, a, v), str),
    "origin": lambda P: (lambda s: P.URL(s).origin, str),
}
NEVER_FAILS = ("can_parse", "is_valid", "scheme_valid", "host_valid", "domain_valid", "ipv4_valid", "ipv6_valid", "opaque_valid", "params", "qsl", "pdecode", "pencode")


PARAM_TOTAL = {"sort": lambda p: p.sort(), "append": lambda p: p.append("a", "1"), "delete": lambda p: p.delete("a"), "delete2": lambda p: p.delete("00001", "1"), "delete-none": lambda p: p.delete("zz"), "set": lambda p: p.set("a", "2"),
               "set-same": lambda p: p.set("a", "1"), "set-new": lambda p: p.set("zz", 1), "get": lambda p: p.get("zz"), "get_all": lambda p: p.get_all("a"), "has": lambda p: p.has("a", "2"), "has-none": lambda p: p.has("zz"), "in": lambda p: "zz" in p, "iter": lambda p: [list(p), list(p.keys()), list(p.values()), list(p.entries())],
               "eq": lambda p: p == type(p)(list(p)), "copy": lambda p: type(p)(p), "len": lambda p: [len(p), p[:], p[0:1]]}


def _params_op(P, q, op, where):
    if where == "url":
        u = P.URL("http://h/?" + q)
        PARAM_TOTAL[op](u.search_params)
        return u.href
    p = P.URLSearchParams(q)
    PARAM_TOTAL[op](p)
    return str(p)


def _set(P, u, a, v):
    x = P.URL(u)
    setattr(x, a, v)
    return x.href


# ------------------------------------------------------------ purity / isolation
def pure(m, s, b):
    """Parsing leaves its base alone, shares nothing with it, and two results
    of the same call share nothing."""
    P, E = H.load()
    lb = observe(E, P.parse_url, b)
    ub = observe(E, P.URL, b)
    if lb[0] != "ok" or ub[0] != "ok":
        m.count("pure_nobase")
        return
    lb, ub = lb[1], ub[1]
    snap, ug, ul = rec_tuple(lb), getters(ub), list(ub.search_params)
    exp = model(M.parse_url, s, b)
    r1 = observe(E, P.parse_url, s, lb)
    u1 = observe(E, P.URL, s, ub)
    r2 = observe(E, P.parse_url, s, lb)
    c = observe(E, P.URL.can_parse, s, ub)
    c2 = observe(E, P.URLValidator.is_valid, s, lb)
    m.count("pure_" + exp[0])
    m.feature("pure", exp[0], shape(s, 14), shape(b, 14))
    if rec_tuple(lb) != snap:
        m.violate("parsing changed the base record", got=rec_tuple(lb), expected=snap)
        return
    if getters(ub) != ug or list(ub.search_params) != ul:
        m.violate("parsing changed the base URL", got=getters(ub), expected=ug)
        return
    if not expect(m, "parse_url", r1, exp) or not expect(m, "URL", u1, exp) or not expect(m, "parse_url again", r2, exp):
        return
    r1, r2, u1 = r1[1], r2[1], u1[1]
    if not cmp_record(m, "first", r1, exp[1]) or not cmp_record(m, "second", r2, exp[1]):
        return
    # scribble over the first result; nothing else may notice
    t2, g1 = rec_tuple(r2), getters(u1)
    _scribble(r1)
    u1.pathname = "/scribbled"
    u1.search = "?scribbled"
    u1.search_params.append("x", "y")
    u1.hash = "s"
    if rec_tuple(r2) != t2:
        m.violate("two results of the same parse share state", got=rec_tuple(r2), expected=t2)
        return
    if rec_tuple(lb) != snap or getters(ub) != ug or list(ub.search_params) != ul:
        m.violate("changing a result changed the base", record=rec_tuple(lb), expected=snap)
        return
    _scribble(lb)
    ub.pathname = "/scribbled2"
    ub.search = "z=1"
    if rec_tuple(r2) != t2:
        m.violate("changing the base changed a result", got=rec_tuple(r2), expected=t2)
        return
    again = observe(E, P.parse_url, s, b)
    if not expect(m, "parse_url afterwards", again, exp):
        return
    cmp_record(m, "parsed again after unrelated changes", again[1], exp[1])


def _scribble(r):
    if isinstance(r.path, list):
        r.path.append("scribble")
        r.path[0] = "scribble0"
    else:
        r.path = r.path + "scribble"
    r.host = "scribble"
    r.port = 4242
    r.query = "scribble"
    r.fragment = "scribble"
    r.scheme = "scribble"
    r.username = r.password = "scribble"


def interleave(m, starts, ops):
    """Several URL objects alive at once, driven alternately; each must follow
    its own model."""
    P, E = H.load()
    us, ms = [], []
    for s in starts:
        e, g = model(M.MURL, s), observe(E, P.URL, s)
        if not expect(m, "URL", g, e):
            return
        us.append(g[1])
        ms.append(e[1])
    rec0 = P.URLRecord()
    if rec_tuple(rec0) != ("", "", "", None, None, (), None, None):
        m.violate("a fresh URLRecord is not empty", got=rec_tuple(rec0))
        return
    if list(P.URLSearchParams()) or P.ValidityState().error_types or P.ValidityState().descriptions:
        m.violate("a fresh object carries old state")
        return
    _scribble_fresh(rec0)
    for i, op in ops:
        i %= len(us)
        u, mu = us[i], ms[i]
        if op[0] == "set":
            failed = mu.set(op[1], op[2])
            r = observe(E, setattr, u, op[1], op[2])
            if r[0] == "exc" or (r[0] == "fail" and not failed):
                m.violate("setter %s raises" % op[1], exception=repr(r[1]))
                return
        else:
            getattr(mu.params, op[1])(*op[2])
            getattr(u.search_params, op[1])(*op[2])
        m.count("interleaved_ops")
    m.feature("inter", len(starts), tuple((i % 4, o[0], o[1]) for i, o in ops[:4]))
    for i, (u, mu) in enumerate(zip(us, ms)):
        if not cmp_getters(m, "object %d of %d" % (i, len(us)), u, mu):
            return


def _scribble_fresh(r):
    r.path.append("x")


class Perturb:
    """Schedule perturbation: forces thread switches at random source lines of
    the code under test, and counts the interleavings observed."""

    TOOL = 5

    def __init__(self, seed, p):
        self.rng, self.p = random.Random(seed), p
        self.last = None
        self.switches = 0
        self.events = 0
        self.points = set()

    def __enter__(self):
        mon = self.mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-sched")
        mon.register_callback(self.TOOL, mon.events.LINE, self._cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(5e-6)
        return self

    def _cb(self, code, line):
        if not code.co_filename.startswith(H.SRC):
            return self.mon.DISABLE
        self.events += 1
        t = threading.get_ident()
        if self.last is not None and self.last != t:
            self.switches += 1
            self.points.add(line)
        self.last = t
        if self.rng.random() < self.p:
            time.sleep(0 if self.rng.random() < 0.9 else 1e-5)

    def __exit__(self, *a):
        self.mon.set_events(self.TOOL, 0)
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, None)
        self.mon.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.old)
        return False


def threads(m, seed, jobs, base):
    """Each thread runs its own list of jobs (one shared base object among
    them); every result must be what the model gives for it alone."""
    P, E = H.load()
    shared_rec = P.parse_url(base)
    shared_url = P.URL(base)
    expected = []
    for lst in jobs:
        out = []
        for j in lst:
            out.append(_job_model(j, base))
        expected.append(out)
    got = [None] * len(jobs)
    errs = []
    barrier = threading.Barrier(len(jobs))

    def run(i):
        try:
            barrier.wait(30)
            got[i] = [_job_run(P, E, j, shared_rec, shared_url) for j in jobs[i]]
        except BaseException as e:
            errs.append((i, e))

    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(jobs))]
    with Perturb(seed, 0.08) as pt:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    m.count("thread_line_events", pt.events)
    m.count("thread_switches_inside_urlstd", pt.switches)
    m.feature("threads", seed, pt.switches)
    for x in pt.points:
        m.feature("switch_point", x)
    if any(t.is_alive() for t in ts):
        m.inconclusive.append("threads did not finish")
        return
    for i, e in errs:
        m.violate("thread %d raises %s" % (i, type(e).__name__), exception=repr(e))
        return
    for i, (g, e) in enumerate(zip(got, expected)):
        for j, (x, y) in enumerate(zip(g, e)):
            m.count("thread_results")
            if x != y:
                m.violate("result under concurrency differs from the result alone", job=jobs[i][j], got=x, expected=y)
                return
    if rec_tuple(shared_rec) != M.parse_url(base).tup() or shared_url.href != M.parse_url(base).ser():
        m.violate("shared base object changed", got=rec_tuple(shared_rec))


class Helper:
    """A real second thread that runs what it is handed."""

    def __init__(self):
        self.todo, self.go = None, threading.Semaphore(0)
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            self.go.acquire()
            f, done = self.todo
            try:
                f()
            finally:
                done.set()

    def start(self, f):
        done = threading.Event()
        self.todo = (f, done)
        self.go.release()
        return done


_helper = None


class PreemptAt:
    """Runs `other` to completion in another thread when the watching thread
    reaches its k-th line (or function entry) inside the code under test."""

    TOOL = 5
    waited = 0.0

    def __init__(self, k, other=None):
        self.k, self.other, self.n = k, other, 0
        self.done = None
        self.where = None
        self.trace = None
        self.blocked = False

    def __enter__(self):
        mon = self.mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, "verif-preempt")
        self.me = threading.get_ident()
        mon.register_callback(self.TOOL, ev.LINE, self._cb)
        mon.register_callback(self.TOOL, ev.PY_RETURN, self._ret)
        mon.set_events(self.TOOL, ev.LINE | ev.PY_RETURN)
        mon.restart_events()
        return self

    def _ret(self, code, off, val):
        return self._cb(code, -code.co_firstlineno)

    def _cb(self, code, line):
        if not code.co_filename.startswith(H.SRC):
            return self.mon.DISABLE
        if threading.get_ident() != self.me:
            return None
        self.n += 1
        if self.trace is not None:
            self.trace.append((code.co_filename, line))
        if self.n == self.k and self.other is not None:
            self.where = line
            self.done = _helper.start(self.other)
            # a lock held here must not deadlock: go on after a while (and
            # after a shorter while once that has happened often)
            t = 0.4 if PreemptAt.waited < 4 else 0.002
            self.blocked = not self.done.wait(t)
            if self.blocked:
                PreemptAt.waited += t

    def __exit__(self, *a):
        ev = self.mon.events
        self.mon.set_events(self.TOOL, 0)
        self.mon.register_callback(self.TOOL, ev.LINE, None)
        self.mon.register_callback(self.TOOL, ev.PY_RETURN, None)
        self.mon.free_tool_id(self.TOOL)
        return False


def preempt_plan(m, a, base, limit):
    """Where to stop a call: each of its steps, or the ones at source lines
    stopped at least often so far."""
    P, E = H.load()
    rec, url = P.parse_url(base), P.URL(base)
    with PreemptAt(0) as w:
        w.trace = []
        _job_run(P, E, a, rec, url)
    seen = m.__dict__.setdefault("preempt_seen", {})
    ks = list(range(1, len(w.trace) + 1))
    m.rng.shuffle(ks)
    ks.sort(key=lambda k: seen.get(w.trace[k - 1], 0))
    out, here = [], set()
    for k in ks:
        # distinct lines first
        if w.trace[k - 1] not in here:
            here.add(w.trace[k - 1])
            out.append(k)
    out = (out + [k for k in ks if k not in set(out)])[:limit]
    for k in out:
        seen[w.trace[k - 1]] = seen.get(w.trace[k - 1], 0) + 1
    return sorted(out)


def preempt(m, a, b, ks, base):
    """Job a is stopped at chosen source lines, job b runs from start to end
    in another thread, then a goes on: both results must be those alone."""
    global _helper
    P, E = H.load()
    if _helper is None:
        _helper = Helper()
    ea, eb = _job_model(a, base), _job_model(b, base)
    rec, url = P.parse_url(base), P.URL(base)
    m.feature("preempt", a[0], b[0], len(ks), ea[0], eb[0])
    m.count("preempt_pairs")
    for k in ks:
        got = []
        with PreemptAt(k, lambda: got.append(_job_run(P, E, b, rec, url))) as w:
            ra = _job_run(P, E, a, rec, url)
        if w.done is None:
            m.count("preempt_point_not_reached")
        elif w.blocked:
            m.count("preemptions")
            m.count("preempt_blocked")
            if not w.done.wait(30):
                m.inconclusive.append("second thread did not finish")
                _helper = Helper()
                return
        else:
            m.count("preemptions")
            m.feature("preempt_point", w.where, b[0])
        if ra != ea:
            m.violate("result of a call preempted by another thread differs from the result alone", job=a, other=b, line=w.where, got=ra, expected=ea)
            return
        if w.done is not None and got != [eb]:
            m.violate("result of a call made while another thread is inside the library differs from the result alone", job=b, other=a, line=w.where, got=got, expected=eb)
            return


def _job_model(j, base):
    k = j[0]
    if k == "own":
        r = model(M.parse_url, j[1], j[2], menc(j[3]))
        return ("ok", (r[1].tup(), r[1].ser())) if r[0] == "ok" else ("fail",)
    if k == "urlparse":
        r = model(M.parse_url, j[1], j[2], menc(j[3]))
        return ("ok", M.urlparse_fields(r[1])) if r[0] == "ok" else ("fail",)
    if k == "vhost":
        return ("ok", (M.valid_host(j[1]),) * 2)
    if k == "vurl":
        errs = []
        r = model(M.parse_url, j[1], err=errs.append)
        return ("ok", r[0] == "ok" and not errs and r[1].scheme in schemes())
    if k == "params":
        p = M.Params.of_string(j[1])
        for fn, a in j[2]:
            getattr(p, fn)(*a)
        return ("ok", (p.l, p.ser()))
    if k == "origin":
        r = model(M.parse_url, j[1])
        return ("ok", r[1].ser_origin()) if r[0] == "ok" else ("fail",)
    if k == "unidna":
        r = model(M.to_unicode, M.usv(j[1]), j[2])
        return ("ok", r[1][0]) if r[0] == "ok" else ("fail",)
    if k == "penc":
        return ("ok", M.pe_after_encoding(M.usv(j[1]), j[2], frozenset(b for b in range(256) if b > 0x7E or chr(b) not in ALWAYS), True))
    if k in ("parse", "resolve", "resolve_url"):
        r = model(M.parse_url, j[1], base if k != "parse" else None)
        return ("ok", r[1].ser()) if r[0] == "ok" else ("fail",)
    if k == "can_parse":
        return ("ok", model(M.parse_url, j[1])[0] == "ok")
    if k == "errors":
        errs = []
        r = model(M.parse_url, j[1], err=errs.append)
        return ("ok", unit_free(errs[::-1]) if r[0] == "ok" else None)
    if k == "host":
        r = model(M.parse_host, j[1], j[2])
        return ("ok", M.ser_host(r[1])) if r[0] == "ok" else ("fail",)
    if k == "idna":
        r = model(M.to_ascii, M.usv(j[1]), j[2])
        return r if r[0] == "ok" else ("fail",)
    if k == "qsl":
        return ("ok", M.urlencode(M.qsl(j[1])))
    if k == "hist":
        mu = M.MURL(j[1])
        for op in j[2]:
            if op[0] == "set":
                mu.set(op[1], op[2])
            else:
                getattr(mu.params, op[1])(*op[2])
        return ("ok", (mu.rec.ser(), mu.params.ser()))
    raise AssertionError(k)


def _job_run(P, E, j, rec, url):
    k = j[0]
    if k == "own":
        r = observe(E, P.parse_url, j[1], j[2], j[3])
        return ("ok", (rec_tuple(r[1]), str(r[1]))) if r[0] == "ok" else r if r[0] == "exc" else ("fail",)
    if k == "urlparse":
        r = observe(E, P.urlparse, j[1], j[2], j[3])
        return ("ok", tuple(r[1])) if r[0] == "ok" else r if r[0] == "exc" else ("fail",)
    if k == "vhost":
        v = P.ValidityState()
        r = observe(E, P.HostValidator.is_valid, j[1], validity=v)
        return ("ok", (r[1], v.valid)) if r[0] == "ok" else r
    if k == "vurl":
        v = P.ValidityState()
        r = observe(E, P.URLValidator.is_valid, j[1], validity=v)
        if r[0] == "ok" and not (v.valid is r[1] and v.validation_errors == len(v.error_types) == len(v.descriptions) and r[1] is (v.validation_errors == 0)):
            return ("ok", ("state disagrees", r[1], repr(v)))
        return r
    if k == "params":
        def gop():
            p = P.URLSearchParams(j[1])
            for fn, a in j[2]:
                getattr(p, fn)(*a)
            return (list(p), str(p))
        return observe(E, gop)
    if k == "origin":
        r = observe(E, lambda: P.URL(j[1]).origin)
        return r if r[0] != "fail" else ("fail",)
    if k == "unidna":
        r = observe(E, P.IDNA.domain_to_unicode, j[1], j[2])
        return r if r[0] != "fail" else ("fail",)
    if k == "penc":
        return observe(E, P.string_percent_encode, j[1], "", j[2], True)
    if k == "parse":
        r = observe(E, P.parse_url, j[1])
    elif k == "resolve":
        r = observe(E, P.parse_url, j[1], rec)
    elif k == "resolve_url":
        r = observe(E, P.URL, j[1], url)
    elif k == "can_parse":
        return observe(E, P.URL.can_parse, j[1])
    elif k == "errors":
        v = P.ValidityState()
        ok = observe(E, P.URL.can_parse, j[1], validity=v)
        return ("ok", unit_free(list(v.error_types)) if ok == ("ok", True) else None if ok == ("ok", False) else ok)
    elif k == "host":
        r = observe(E, P.Host.parse, j[1], j[2])
        return ("ok", P.Host.serialize(r[1])) if r[0] == "ok" else r if r[0] == "exc" else ("fail",)
    elif k == "idna":
        r = observe(E, P.IDNA.domain_to_ascii, j[1], j[2])
        return r if r[0] != "fail" else ("fail",)
    elif k == "qsl":
        return observe(E, lambda: P.urlencode(P.parse_qsl(j[1])))
    elif k == "hist":
        def go():
            u = P.URL(j[1])
            for op in j[2]:
                if op[0] == "set":
                    observe(E, setattr, u, op[1], op[2])
                else:
                    getattr(u.search_params, op[1])(*op[2])
            return (u.href, str(u.search_params))
        return observe(E, go)
    return ("ok", str(r[1])) if r[0] == "ok" else r if r[0] == "exc" else ("fail",)


def attached(m, s, ops):
    """URLSearchParams attached to a URLRecord: mutations show in the record."""
    P, E = H.load()
    exp, got = model(M.parse_url, s), observe(E, P.parse_url, s)
    if not expect(m, "parse_url", got, exp):
        return
    rec, mr = got[1], exp[1]
    sp = P.URLSearchParams(rec)
    mp = M.Params()
    mp.attach(mr)
    m.count("attached")
    for fn, a in ops:
        if not cmp_params(m, "attached", sp, mp, False):
            return
        e = getattr(mp, fn)(*a)
        r = observe(E, getattr(sp, fn), *a)
        m.feature("attached", fn, mr.opaque, mr.query is None, len(mp.l))
        if r != ("ok", e):
            m.violate("attached search params: %s differs" % fn, got=r, expected=e)
            return
        if not cmp_record(m, "record after %s on its search params" % fn, rec, mr):
            return
    cmp_params(m, "attached", sp, mp)


def noalias(m, pairs, s):
    """Returned and accepted containers are copies: changing them changes no
    other object."""
    P, E = H.load()
    m.count("noalias")
    arg = [list(x) for x in pairs]
    sp = P.URLSearchParams(arg)
    exp = list(sp)
    arg.append(["late", "1"])
    arg[0][0] = "changed"
    sl = sp[:]
    sl.append(("x", "y"))
    sl.clear()
    cp = P.URLSearchParams(sp)
    cp.append("only-in-copy", "1")
    cp.delete(exp[0][0])
    ga = sp.get_all(exp[0][0])
    ks, vs, es = sp.keys(), sp.values(), sp.entries()
    next(ks), next(vs), next(es)
    if list(sp) != exp or len(sp) != len(exp):
        m.violate("a container handed in or out is shared", got=list(sp), expected=exp)
        return
    if ga != tuple(v for k, v in exp if k == exp[0][0]):
        m.violate("get_all differs", got=ga)
        return
    d = {"a": "1"}
    sd = P.URLSearchParams(d)
    d["b"] = "2"
    sd.append("c", "3")
    if list(sd) != [("a", "1"), ("c", "3")] or d != {"a": "1", "b": "2"}:
        m.violate("dict initializer is shared", got=list(sd))
        return
    # two URL objects of one record source
    u1, u2 = P.URL(s), P.URL(s)
    h = u2.href
    l = list(u2.search_params)
    u3 = P.URL(u1.href, u1)
    p1 = u1.search_params
    c1 = P.URLSearchParams(p1)
    c1.append("c", "d")
    if u1.href != h:
        m.violate("copying search_params and changing the copy changed the URL", got=u1.href, expected=h)
        return
    p1.append("n", "v")
    p1.sort()
    u1.hash = "z"
    if u2.href != h or list(u2.search_params) != l or u3.href != h:
        m.violate("two URL objects share state", got=(u2.href, u3.href), expected=h)
        return
    v1, v2 = P.ValidityState(), P.ValidityState()
    P.URLValidator.is_valid("http://a|b/ %", validity=v1)
    P.URLValidator.is_valid("http://h/%|", validity=v1)
    if not v2.valid or v2.error_types or v2.descriptions or v2.validation_errors:
        m.violate("two ValidityState objects share state", got=v2.error_types)
        return
    m.feature("noalias", len(pairs), shape(s))


def containers(m, pairs, pieces, ops):
    """No call changes a list, dict or record handed to it."""
    P, E = H.load()
    m.count("containers")
    m.feature("containers", len(pairs), tuple(sorted({type(x).__name__ for p in pairs for x in p})), tuple(x == 0 for x in pieces))
    args = {
        "URLSearchParams(list of lists)": (P.URLSearchParams, [list(x) for x in pairs]),
        "URLSearchParams(list of tuples)": (P.URLSearchParams, [tuple(x) for x in pairs]),
        "URLSearchParams(tuple of lists)": (P.URLSearchParams, tuple(list(x) for x in pairs)),
        "URLSearchParams(dict)": (P.URLSearchParams, {x[0]: x[1] for x in pairs}),
        "urlencode(list of lists)": (P.urlencode, [[str(a), str(b)] for a, b in pairs]),
        "urlencode(list of tuples)": (P.urlencode, [(str(a), str(b)) for a, b in pairs]),
        "Host.serialize": (P.Host.serialize, list(pieces)),
        "IPv6Address.serialize": (P.IPv6Address.serialize, list(pieces)),
        "serialize_url": (lambda h: P.URLRecord(scheme="http", host=h, path=[""]).serialize_url(), list(pieces)),
    }
    for what, (f, a) in args.items():
        snap = copy.deepcopy(a)
        r1 = observe(E, f, a)
        if repr(a) != repr(snap):
            m.violate("%s changes its argument" % what, got=a, expected=snap)
            return
        if r1[0] == "exc":
            m.violate("%s raises" % what, exception=repr(r1[1]))
            return
        if isinstance(r1[1], P.URLSearchParams):
            for fn, x in ops:
                getattr(r1[1], fn)(*x)
            if repr(a) != repr(snap):
                m.violate("changing what %s returns changes the argument" % what, got=a, expected=snap)
                return
        r2 = observe(E, f, a)
        if not isinstance(r1[1], P.URLSearchParams) and r1 != r2:
            m.violate("%s twice differs" % what, got=r2, expected=r1)
            return


def seq(m, jobs, base):
    """Calls one after another in one process over few inputs and all their
    options: each gives what it gives alone."""
    P, E = H.load()
    rec, url = P.parse_url(base), P.URL(base)
    for i, j in enumerate(jobs):
        e, g = _job_model(j, base), _job_run(P, E, j, rec, url)
        m.count("seq_calls")
        m.feature("seq", j[0], jobs[i - 1][0] if i else "", e[0])
        if g != e:
            m.violate("result differs from the result alone after other calls", call=i, job=j, got=g, expected=e)
            return


FRESH = r'''
import sys, json, logging
mode, src = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, src)
names = ["urlstd", "urlstd.parse"] + ["urlstd.parse." + n for n in
         ("BasicURLParser", "Host", "HostValidator", "IDNA", "IPv4Address", "IPv6Address", "URL", "URLSearchParams", "URLValidator")]
class Own(logging.Logger):
    pass
class Strict(logging.Logger):
    def info(self, msg, *args, stacklevel=1, exc_info=None, extra=None, stack_info=False):
        super().info(msg, *args, stacklevel=stacklevel, exc_info=exc_info, extra=extra, stack_info=stack_info)
if mode == "own_class":
    logging.setLoggerClass(Own)
elif mode == "adapter_class":
    logging.setLoggerClass(Strict)
if mode != "plain":
    for n in names:
        logging.getLogger(n).setLevel(logging.DEBUG if mode == "debug" else logging.INFO)
    logging.getLogger().addHandler(logging.NullHandler())
if mode == "disabled":
    logging.disable(logging.CRITICAL)
cls = logging.getLoggerClass()
import urlstd.parse as P
out = []
if mode == "adapter_class" or mode == "own_class":
    logging.setLoggerClass(logging.Logger)
for s in json.load(sys.stdin):
    row = []
    for f in (lambda: P.parse_url(s).href, lambda: P.URL.can_parse(s), lambda: P.URLValidator.is_valid(s), lambda: P.HostValidator.is_valid(s), lambda: P.HostValidator.is_valid_opaque_host(s)):
        v = None
        try:
            row.append(["ok", f()])
        except P.URLParseError as e:
            row.append(["fail", type(e).__name__])
        except Exception as e:
            row.append(["exc", repr(e)])
    v = P.ValidityState()
    try:
        P.URL.can_parse(s, validity=v)
        row.append(["ok", v.error_types])
    except Exception as e:
        row.append(["exc", repr(e)])
    out.append(row)
print(json.dumps(out))
'''
FRESH_IN = ["http://h/", " http://a b/", "http://a|b/", "foo:%", "http://u:p@h:99999/", "file:///C|/x", "http://[::1", "http://1.2.3.4.5/", "x", "", "http://h/|?|#|", "http:\\\\h", "a..b", "1.2.3.4",
            "http://ex\u00e4mple/", "xn--a", "http://xn--a/", "foo://a b", "http://0x1/", "[::1]"]


def fresh(m, mode):
    """A new interpreter whose logging was configured before the import."""
    import subprocess
    P, E = H.load()
    exp = []
    for s in FRESH_IN:
        row = []
        for f in (lambda: P.parse_url(s).href, lambda: P.URL.can_parse(s), lambda: P.URLValidator.is_valid(s), lambda: P.HostValidator.is_valid(s), lambda: P.HostValidator.is_valid_opaque_host(s)):
            r = observe(E, f)
            row.append(["ok", r[1]] if r[0] == "ok" else ["fail", type(r[1]).__name__] if r[0] == "fail" else ["exc", repr(r[1])])
        v = P.ValidityState()
        P.URL.can_parse(s, validity=v)
        row.append(["ok", v.error_types])
        exp.append(row)
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0)
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", FRESH, mode, H.SRC], input=json.dumps(FRESH_IN), capture_output=True, text=True, timeout=300)
    m.count("fresh")
    m.feature("fresh", mode)
    if p.returncode != 0:
        m.violate("importing or using urlstd fails in a configured interpreter", mode=mode, stderr=p.stderr[-600:])
        return
    got = json.loads(p.stdout.strip().split("\n")[-1])
    for s, g, e in zip(FRESH_IN, got, exp):
        if g != e:
            m.violate("results depend on how logging was configured before the import", mode=mode, input=s, got=g, expected=e)
            return


# --------------------------------------------------- process environment
# name -> (interpreter options, environment changes, mode)
ENVS = {
    "plain": ((), {}, "plain"),
    "optimised": (("-O",), {}, "plain"),
    "no docstrings": (("-OO",), {}, "plain"),
    "bytes warnings": (("-bb",), {}, "plain"),
    "dev mode": (("-X", "dev", "-W", "error"), {}, "plain"),
    "hash seed 0": ((), {"PYTHONHASHSEED": "0"}, "plain"),
    "hash seed 1": ((), {"PYTHONHASHSEED": "1"}, "plain"),
    "hash seed 12345": ((), {"PYTHONHASHSEED": "12345"}, "gc"),
    "C locale": ((), {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "plain"),
    "ascii streams": ((), {"PYTHONIOENCODING": "ascii", "PYTHONUTF8": "0", "LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}, "plain"),
    "utf8 mode": (("-X", "utf8"), {"TZ": "Asia/Kathmandu"}, "plain"),
    "few digits": (("-X", "int_max_str_digits=640"), {}, "plain"),
    "unlimited digits": (("-X", "int_max_str_digits=0"), {}, "plain"),
    "debug malloc": ((), {"PYTHONMALLOC": "debug", "PYTHONHASHSEED": "7"}, "plain"),
    "no streams": ((), {}, "nostd"),
    "gc at every step": ((), {}, "gc"),
    "gc off": ((), {}, "nogc"),
    "other thread": ((), {}, "thread"),
    "forked child": ((), {}, "fork"),
    "traced": ((), {}, "trace"),
    "proxies and home": ((), {"http_proxy": "http://user:pw@proxy:1/", "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "URLSTD_DEBUG": "1", "DEBUG": "1"}, "plain"),
}


def _job_env(P, E, j, rec, url):
    """Further calls, compared between processes only."""
    k = j[0]
    if k == "pinit":
        def go():
            p = P.URLSearchParams(dict(j[1]) if j[2] else [tuple(x) for x in j[1]])
            out = [list(p), str(p), p == P.URLSearchParams(str(p)), [p.get_all(n) for n, _ in j[1][:3]], [p.has(n) for n, _ in j[1][:3]]]
            p.sort()
            return out + [list(p), repr(p), list(p.keys()), list(p.values())]
        return observe(E, go)
    if k == "verr":
        def go():
            v = P.ValidityState()
            return P.URLValidator.is_valid(j[1], validity=v), v.valid, v.error_types, v.descriptions, v.validation_errors
        return observe(E, go)
    if k == "errtype":
        r = observe(E, P.parse_url, j[1])
        return ("ok", type(r[1]).__name__)
    if k == "show":
        return observe(E, lambda: repr(P.URL(j[1])) + repr(P.parse_url(j[1])) + repr(P.parse_url(j[1]).origin))
    if k == "eqs":
        return observe(E, lambda: (P.URL(j[1]) == P.URL(j[2]), P.URL(j[1]).equals(P.URL(j[2]), True), str(P.parse_url(j[1]).origin), P.parse_url(j[1]).origin == P.parse_url(j[2]).origin))
    if k == "codec":
        return observe(E, lambda: (P.string_percent_decode(j[1]), P.utf8_percent_encode(j[1], j[2]), P.utf8_encode(j[1]), P.utf8_decode(P.utf8_encode(j[1])), P.urlencode([(j[1], j[2])], j[3]), P.string_percent_encode(j[1], j[2], j[3])))
    if k == "schemes":
        return observe(E, lambda: [P.URLValidator.is_valid_url_scheme(x) for x in j[1]])
    return _job_run(P, E, j, rec, url)


def _plain(r):
    return r if r[0] == "ok" else (r[0], repr(r[1])) if r[0] == "exc" else ("fail",)


def environ(m, name, jobs, base):
    """The calls of a battery in a new interpreter configured differently."""
    import pickle
    import signal
    import subprocess
    import tempfile
    opts, env, mode = ENVS[name]
    P, E = H.load()
    rec, url = P.parse_url(base), P.URL(base)
    exp = [_plain(_job_env(P, E, j, rec, url)) for j in jobs]
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.setitimer(signal.ITIMER_PROF, 0)
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("PYTHON"):
            del e[k]
    e.update(env, VERIF_REPO=H.REPO)
    r, w = os.pipe()
    buf = []

    def pump():
        with os.fdopen(r, "rb") as f:
            buf.append(f.read())
    t = threading.Thread(target=pump)
    t.start()
    argv = [sys.executable, "-B", *opts, os.path.join(H.VERIF, "lib", "envrun.py"), mode, str(w)]
    with tempfile.TemporaryDirectory() as d:
        try:
            p = subprocess.run(argv, input=pickle.dumps((jobs, base)), capture_output=True, timeout=300, cwd=d, env=e, pass_fds=(w,))
        except subprocess.TimeoutExpired:
            p = None
        os.close(w)
        t.join()
        left = os.listdir(d)
    if p is None:
        m.inconclusive.append("interpreter %r did not finish in 300 s" % name)
        return
    m.count("interpreters")
    m.count("environment_results", len(jobs))
    m.feature("environ", name)
    try:
        out = pickle.loads(buf[0])
    except Exception:
        out = None
    if p.returncode != 0 or out is None or out["res"] is None:
        m.violate("calls do not complete in this environment", environment=name, code=p.returncode, stderr=p.stderr[-800:])
        return
    for j, g, x in zip(jobs, out["res"], exp):
        m.feature("environ", name, j[0], x[0])
        if g != x:
            m.violate("result depends on the process environment", environment=name, job=j, got=g, expected=x)
            return
    if out["effects"]:
        m.violate("the library acts on the world outside its objects", environment=name, effects=out["effects"])
    elif out["changed"]:
        m.violate("the library changes process-wide settings", environment=name, changed=out["changed"])
    elif p.stdout or p.stderr:
        m.violate("the library writes to the standard streams", environment=name, stdout=p.stdout[:300], stderr=p.stderr[:300])
    elif left:
        m.violate("the library leaves files behind", environment=name, files=left)


# --------------------------------------------------- copies, pickles, repr
def _pk(p):
    import pickle
    return lambda x: pickle.loads(pickle.dumps(x, p))


COPIERS = [("deepcopy", copy.deepcopy)] + [("pickle %d" % p, _pk(p)) for p in (2, 3, 4, 5)]


def _apply(P, E, u, ops):
    out = []
    for op in ops:
        if op[0] == "set":
            out.append(observe(E, setattr, u, op[1], op[2])[0])
        else:
            out.append(observe(E, getattr(u.search_params, op[1]), *op[2])[0])
    return out


def _snap(u):
    return getters(u), list(u.search_params), str(u.search_params), len(u.search_params)


def _repr_back(P, m, what, x, same):
    r = repr(x)
    if repr(x) != r:
        m.violate("repr() of %s is not repeatable" % what, got=repr(x), first=r)
        return False
    y = observe(H.load()[1], eval, r, {"__builtins__": {}, **{n: getattr(P, n) for n in ("URLRecord", "URLSearchParams", "Origin", "ValidityState")}, "inf": float("inf")})
    if y[0] != "ok" or not same(x, y[1]):
        m.violate("repr() of %s does not evaluate to an equal object" % what, repr=r, got=y[1])
        return False
    m.count("reprs")
    return True


def same_record(a, b):
    return type(a) is type(b) and rec_tuple(a) == rec_tuple(b) and a == b and b == a and str(a) == str(b) and type(a.path) is type(b.path) and a.origin == b.origin


def same_params(a, b):
    return type(a) is type(b) and list(a) == list(b) and str(a) == str(b) and a == b and b == a and len(a) == len(b)


def same_validity(a, b):
    f = ("valid", "error_types", "descriptions", "validation_errors", "disable_logging")
    return type(a) is type(b) and all(getattr(a, x) == getattr(b, x) for x in f)


def faithful(m, start, ops, more):
    """A URL taken through a history, its record and its parameters copy,
    pickle and print faithfully."""
    P, E = H.load()

    def build():
        u = P.URL(start)
        _apply(P, E, u, ops)
        return u
    if observe(E, P.URL, start)[0] != "ok":
        return
    u, twin = build(), build()
    s0 = _snap(u)
    tw = _apply(P, E, twin, more)
    s1 = _snap(twin)
    r = repr(u)
    g = s0[0]
    lack = [k for k in g if "%s=%r" % (k, g[k]) not in r]
    if lack or repr(u) != r or _snap(u) != s0:
        m.violate("repr() of a URL does not show its attributes, or changes them", missing=lack, repr=r, before=s0, after=_snap(u))
        return
    m.feature("faithful", len(ops), tuple(o[1] for o in more)[:2], bool(g["search"]), bool(g["hash"]), bool(g["port"]), g["hostname"][:1] == "[")
    for name, cp in COPIERS:
        d = observe(E, cp, u)
        if d[0] != "ok" or type(d[1]) is not type(u) or _snap(d[1]) != s0 or not (d[1] == u and u == d[1] and d[1].equals(u)):
            m.violate("%s of a URL is not equal to it" % name, got=_snap(d[1]) if d[0] == "ok" else d[1], expected=s0)
            return
        d = d[1]
        if d.search_params is u.search_params or d.search_params is not d.search_params:
            m.violate("%s of a URL shares its search parameters" % name)
            return
        got = _apply(P, E, d, more)
        if got != tw or _snap(d) != s1:
            m.violate("%s of a URL does not behave like the URL" % name, ops=more, got=_snap(d), expected=s1)
            return
        if _snap(u) != s0:
            m.violate("changing the %s of a URL changes the URL" % name, ops=more, got=_snap(u), expected=s0)
            return
        # the other direction, and copies of copies
        u2 = build()
        d2 = cp(cp(u2))
        _apply(P, E, u2, more)
        if _snap(d2) != s0 or _snap(u2) != s1:
            m.violate("changing a URL changes the %s taken before" % name, ops=more, got=_snap(d2), expected=s0)
            return
        # together with its parameters the link survives
        a, b = cp([u, u.search_params])
        if a.search_params is not b:
            m.violate("%s of a URL with its search parameters loses their link" % name)
            return
        sp = u.search_params
        q = cp(sp)
        if not same_params(sp, q) or q is sp:
            m.violate("%s of search parameters is not equal to them" % name, got=list(q), expected=s0[1])
            return
        q.append("x", "1")
        q.sort()
        if _snap(u) != s0:
            m.violate("changing the %s of search parameters changes the original" % name, got=_snap(u), expected=s0)
            return
        m.count("copies")
    if not _repr_back(P, m, "search parameters", u.search_params, same_params):
        return
    # the record of the same URL
    rec = P.parse_url(u.href)
    t0 = rec_tuple(rec)
    if not _repr_back(P, m, "a record", rec, same_record):
        return
    org = rec.origin
    if org is not None and not _repr_back(P, m, "an origin", org, lambda a, b: type(a) is type(b) and a == b and str(a) == str(b) and a.is_same_origin(b)):
        return
    for name, cp in COPIERS + [("copy", copy.copy)]:
        d = cp(rec)
        if not same_record(rec, d):
            m.violate("%s of a record is not equal to it" % name, got=rec_tuple(d), expected=t0)
            return
        o2 = cp(org)
        if o2 != org or str(o2) != str(org):
            m.violate("%s of an origin is not equal to it" % name, got=o2, expected=org)
            return
        d.scheme, d.username, d.query, d.fragment, d.port, d.host = "x", "n", "q", "f", 1, "h"
        if name != "copy" and isinstance(d.path, list):
            d.path.append("z")
        if rec_tuple(rec) != t0:
            m.violate("changing the %s of a record changes the record" % name, got=rec_tuple(rec), expected=t0)
            return
        m.count("record_copies")


def faithful_params(m, kind, init, ops):
    P, E = H.load()

    def build():
        p = _mk_lib(P, kind, init)[0]
        for fn, a in ops[:-1]:
            observe(E, getattr(p, fn), *a)
        return p
    p, twin = build(), build()
    l0 = list(p)
    observe(E, getattr(twin, ops[-1][0]), *ops[-1][1])
    if not _repr_back(P, m, "search parameters", p, same_params):
        return
    for name, cp in COPIERS:
        q = cp(p)
        if not same_params(p, q):
            m.violate("%s of search parameters is not equal to them" % name, got=list(q), expected=l0)
            return
        observe(E, getattr(q, ops[-1][0]), *ops[-1][1])
        if list(p) != l0:
            m.violate("changing the %s of search parameters changes the original" % name, op=ops[-1], got=list(p), expected=l0)
            return
        if not same_params(q, twin):
            m.violate("%s of search parameters does not behave like the original" % name, op=ops[-1], got=list(q), expected=list(twin))
            return
        m.count("params_copies")
    m.feature("faithful_params", kind, ops[-1][0], min(len(l0), 4))


def faithful_validity(m, s, other):
    """Validity states and errors."""
    P, E = H.load()
    v = P.ValidityState()
    ok = observe(E, P.URLValidator.is_valid, s, validity=v)
    f0 = (v.valid, list(v.error_types), list(v.descriptions), v.validation_errors)
    if not _repr_back(P, m, "a validity state", v, same_validity):
        return
    for name, cp in COPIERS:
        d = cp(v)
        if not same_validity(v, d):
            m.violate("%s of a validity state is not equal to it" % name, got=d, expected=v)
            return
        P.URLValidator.is_valid(other, validity=d)
        if (v.valid, list(v.error_types), list(v.descriptions), v.validation_errors) != f0:
            m.violate("reusing the %s of a validity state changes the original" % name, got=v, expected=f0)
            return
        m.count("validity_copies")
    r = observe(E, P.parse_url, s)
    if r[0] == "fail" and not isinstance(r[1], E.IDNAError):
        for name, cp in COPIERS:
            d = observe(E, cp, r[1])
            if d[0] != "ok" or type(d[1]) is not type(r[1]) or d[1].args != r[1].args or str(d[1]) != str(r[1]):
                m.violate("%s of an error is not equal to it" % name, got=d[1], expected=r[1])
                return
            m.count("error_copies")
    m.feature("faithful_validity", ok, tuple(f0[1][:3]), r[0])


# --------------------------------------------------- failures inside ICU
class IcuFault:
    """Makes the nth and later IDNA conversions of ICU fail."""

    NAMES = ("name_to_ascii", "name_to_unicode", "name_to_ascii_utf8", "name_to_unicode_utf8", "label_to_ascii", "label_to_unicode", "label_to_ascii_utf8", "label_to_unicode_utf8")
    CODES = ("U_MEMORY_ALLOCATION_ERROR", "U_ILLEGAL_ARGUMENT_ERROR", "U_INTERNAL_PROGRAM_ERROR", "U_BUFFER_OVERFLOW_ERROR", "U_FILE_ACCESS_ERROR")

    def __init__(self, nth, code):
        import icupy.icu as icu
        self.icu, self.nth, self.n, self.fired, self.code = icu, nth, 0, 0, code
        self.old = {}

    def __enter__(self):
        for n in self.NAMES:
            f = getattr(self.icu.IDNA, n, None)
            if f is not None:
                self.old[n] = f
                setattr(self.icu.IDNA, n, self._wrap(f))
        return self

    def _wrap(self, f):
        def g(*a, **k):
            self.n += 1
            if self.n >= self.nth:
                self.fired += 1
                ec = self.icu.ErrorCode()
                ec.set(getattr(self.icu, self.code))
                raise self.icu.ICUError(ec)
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.icu.IDNA, n, f)
        return False


def icu_fault(m, fn, args, nth, code):
    """ICU fails inside a call: the documented error or False, nothing changed,
    and the same call works again afterwards."""
    P, E = H.load()
    if fn == "set":
        if observe(E, P.URL, args[0])[0] != "ok":
            return
        u, twin = P.URL(args[0]), P.URL(args[0])
        s0 = _snap(u)
        ok = observe(E, setattr, twin, args[1], args[2])
        f = lambda: setattr(u, args[1], args[2])  # noqa: E731
    else:
        call = TOTAL[fn](P)[0]
        f = lambda: call(*args)  # noqa: E731
        ok = observe(E, f)
    with IcuFault(nth, code) as w:
        r = observe(E, f)
    if r[0] == "exc":
        m.violate("%s raises %s when ICU fails" % (fn, type(r[1]).__name__), exception=repr(r[1]), conversions=w.n)
        return
    if w.fired:
        m.count("icu_faults")
        m.feature("icu_fault", fn, r[0], nth, code, w.n)
        if fn in ("can_parse", "is_valid", "host_valid", "domain_valid"):
            if r != ("ok", False):
                m.violate("%s does not answer False when ICU fails" % fn, got=r)
                return
        elif fn != "set" and (r[0] != "fail" or not isinstance(r[1], E.IDNAError)) and not (fn == "origin" and r[0] == "ok"):
            m.violate("%s does not raise IDNAError when ICU fails" % fn, got=r)
            return
        if fn == "set" and _snap(u) != s0:
            m.violate("an assignment during which ICU fails changes the URL", got=_snap(u), expected=s0)
            return
    if fn == "set":
        if w.fired:
            again = observe(E, setattr, u, args[1], args[2])
            if again[0] != ok[0] or _snap(u) != _snap(twin):
                m.violate("after a failure inside ICU an assignment gives another result", got=_snap(u), expected=_snap(twin))
    else:
        again = observe(E, f)
        x, y = ((z[0], z[1] if isinstance(z[1], (str, bool, int, tuple)) else str(z[1])) for z in (ok, again))
        if x != y:
            m.violate("after a failure inside ICU %s gives another result" % fn, got=y, expected=x)


# ------------------------------------------------------------ causes of failure
def part_of(why):
    """the part of the input a standard error name is about"""
    if why.startswith(("IPv6-", "IPv4-in-IPv6")):
        return "ipv6"
    if why.startswith("IPv4-"):
        return "ipv4"
    if why in ("domain-to-ASCII", "host-invalid-code-point", "domain-invalid-code-point"):
        return "host"
    return "url"


def cause_class(m, E, what, x, why):
    """the class of exception x fits the part that failed"""
    part = part_of(why)
    m.count("cause_" + why)
    cls = {"ipv6": E.IPv6AddressParseError, "ipv4": E.IPv4AddressParseError, "host": E.HostParseError}.get(part)
    if cls is None:
        ok = not isinstance(x, (E.HostParseError, E.IDNAError))
    elif part == "host":
        ok = isinstance(x, E.HostParseError) and not isinstance(x, (E.IPv4AddressParseError, E.IPv6AddressParseError))
        # ICU itself may give up on a domain; the error then carries ICU's code
        if why == "domain-to-ASCII" and isinstance(x, E.IDNAError):
            ok = bool(x.error_code)
    else:
        ok = isinstance(x, cls)
    if not ok:
        m.violate(what + ": the error class does not name the part that failed", error=repr(x), cause=why)
        return False
    if not isinstance(x, ValueError) or not str(x):
        m.violate(what + ": error without a message, or not a ValueError", error=repr(x))
        return False
    return True


def cause_types(m, what, v, errs):
    """the error types of a failed parse: the standard's, latest first, the
    cause on top (an undefined one, for a limit the standard has no name for,
    may precede)"""
    got = list(v.error_types)
    if got and got[0] == "undefined":
        got = got[1:]
    want = errs[::-1]
    if not want:
        return True
    if part_of(want[0]) == "ipv6":  # which of several defects of one address is named is not compared
        got[:1] = [part_of(t) for t in got[:1]]
        want[0] = "ipv6"
    if got[:1] != want[:1] or unit_free(got) != unit_free(want):
        m.violate(what + ": a failed parse reports other errors than the standard", got=v.error_types, expected=errs[::-1])
        return False
    if v.valid or v.validation_errors != len(v.error_types) or len(v.descriptions) != len(v.error_types):
        m.violate(what + ": ValidityState is inconsistent after a failure", state=(v.valid, v.error_types))
        return False
    return True


def cause(m, fn, args):
    """A failing call: the class of the error and the reported error types
    name the part of the input that failed."""
    P, E = H.load()
    errs = []
    v = P.ValidityState()
    if fn == "url":
        s, b, enc = args
        e = model(M.parse_url, s, b, menc(enc), err=errs.append)
        calls = [("parse_url", P.parse_url, (s, b, enc), {"validity": v}), ("parse_url without validity", P.parse_url, (s, b, enc), {}), ("urlparse", P.urlparse, (s, b, enc), {})]
        if enc == "utf-8":
            calls.append(("URL", P.URL, (s, b), {}))
            lb = observe(E, P.parse_url, b) if b is not None else ("ok", None)
            if lb[0] == "ok":
                calls.append(("BasicURLParser.parse", P.BasicURLParser.parse, (s,), {"base": lb[1]}))
                calls.append(("URL with a URL base", P.URL, (s, b if b is None else P.URL(b)), {}))
    elif fn == "host":
        s, opaque = args
        e = model(M.parse_host, s, opaque, errs.append)
        calls = [("Host.parse", P.Host.parse, (s, opaque), {"validity": v}), ("Host.parse without validity", P.Host.parse, (s, opaque), {})]
    elif fn == "ascii":
        s, strict = args
        e = model(M.to_ascii, M.usv(s), strict)
        if e[0] == "fail":
            errs.append(e[1])
        calls = [("IDNA.domain_to_ascii", P.IDNA.domain_to_ascii, (s, strict), {"validity": v}), ("IDNA.domain_to_ascii without validity", P.IDNA.domain_to_ascii, (s, strict), {})]
    elif fn == "ipv6":
        s, = args
        e = model(M.parse_ipv6, s)
        if e[0] == "fail":
            errs.append(e[1])
        calls = [("IPv6Address.parse", P.IPv6Address.parse, (s,), {"validity": v}), ("IPv6Address.parse without validity", P.IPv6Address.parse, (s,), {})]
    elif fn == "ipv4":
        s, = args
        e = model(M.parse_ipv4, s, errs.append)
        calls = [("IPv4Address.parse", P.IPv4Address.parse, (s,), {"validity": v}), ("IPv4Address.parse without validity", P.IPv4Address.parse, (s,), {})]
    elif fn == "set":
        b, a, s = args
        mu = M.MURL(b)
        e = ("fail", mu.why) if mu.set(a, s) else ("ok", None)
        calls = [("assignment to " + a, setattr, (P.URL(b), a, s), {})]
    else:
        raise AssertionError(fn)
    m.count("cause_calls")
    m.feature(fn, e[0], e[1] if e[0] == "fail" else "", tuple(errs[-4:]), shape(s, 14))
    if e[0] == "ok":
        # nothing failed: whether the call agrees is for the other properties
        m.count("cause_none")
        return
    texts = {}
    for what, f, a, k in calls:
        g = observe(E, f, *a, **k)
        if g[0] == "exc":
            m.violate("%s raises %s" % (what, type(g[1]).__name__), exception=repr(g[1]))
            return
        if g[0] == "ok":
            if fn == "set":  # rejected silently
                m.count("cause_silent")
                return
            m.violate(what + " accepts what the standard rejects", cause=e[1])
            return
        if not cause_class(m, E, what, g[1], e[1]):
            return
        texts[what] = type(g[1])
        if k.get("validity") is v and not cause_types(m, what, v, errs):
            return
    if len(set(texts.values())) != 1:
        m.violate("the error class depends on the entry point", classes={k: t.__name__ for k, t in texts.items()})


# ------------------------------------------------------------ interrupted calls
class InterruptAt:
    """Raises KeyboardInterrupt when the code under test reaches its k-th line
    (0: never).  Lines where a lock would be taken or given back are left out:
    Python itself cannot make those atomic."""

    TOOL = 5

    def __init__(self, k):
        self.k, self.n, self.where = k, 0, None

    def __enter__(self):
        mon = self.mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-interrupt")
        mon.register_callback(self.TOOL, mon.events.LINE, self._cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def _cb(self, code, line):
        if not code.co_filename.startswith(H.SRC):
            return self.mon.DISABLE
        if linecache.getline(code.co_filename, line).lstrip().startswith(("with ", "async with", "try:", "finally:", "class ", "@")):
            return None
        self.n += 1
        if self.n == self.k:
            self.where = line
            self.mon.set_events(self.TOOL, 0)
            raise KeyboardInterrupt

    def __exit__(self, *a):
        self.mon.set_events(self.TOOL, 0)
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, None)
        self.mon.free_tool_id(self.TOOL)
        return False


def interrupt_len(a, base):
    P, E = H.load()
    rec, url = P.parse_url(base), P.URL(base)
    with InterruptAt(0) as w:
        _job_run(P, E, a, rec, url)
    return w.n


def interrupt(m, a, ks, follow, base):
    """Call a is abandoned by a KeyboardInterrupt at chosen source lines; the
    same call and others afterwards, against the same base, give the results
    they give alone."""
    P, E = H.load()
    jobs = [a] + list(follow)
    exp = [_job_model(j, base) for j in jobs]
    mb = M.parse_url(base)
    rec, url = P.parse_url(base), P.URL(base)
    m.feature("interrupt", a[0], len(ks), exp[0][0])
    for k in ks:
        try:
            with InterruptAt(k) as w:
                _job_run(P, E, a, rec, url)
        except KeyboardInterrupt:
            if w.where is None:
                raise
        m.count("interrupts" if w.where is not None else "interrupt_point_not_reached")
        if w.where is not None:
            m.feature("interrupt_point", w.where, a[0])
        for j, e in zip(jobs, exp):
            g = _job_run(P, E, j, rec, url)
            if g != e:
                m.violate("after an interrupted call a result differs from the result alone", interrupted=a, line=w.where, job=j, got=g, expected=e)
                return
        if rec_tuple(rec) != mb.tup() or url.href != mb.ser() or list(url.search_params) != M.MURL(base).params.l:
            m.violate("an interrupted call changed its base", interrupted=a, line=w.where, got=rec_tuple(rec), expected=mb.tup())
            return


def interrupt_set(m, start, op, ks, href, after):
    """An assignment or parameter change is abandoned by a KeyboardInterrupt;
    another URL object does not notice, and assigning href brings the
    interrupted one back into a sound state."""
    P, E = H.load()
    mo = M.MURL(start)
    for k in ks:
        u, other = P.URL(start), P.URL(start)
        sp = u.search_params
        try:
            with InterruptAt(k) as w:
                if op[0] == "set":
                    observe(E, setattr, u, op[1], op[2])
                else:
                    observe(E, getattr(sp, op[1]), *op[2])
        except KeyboardInterrupt:
            if w.where is None:
                raise
        m.count("assignments_interrupted" if w.where is not None else "interrupt_point_not_reached")
        m.feature("interrupt_set", op[1], w.where)
        if not cmp_getters(m, "another object after an interrupted change", other, mo):
            return
        if observe(E, setattr, u, "href", href)[0] != "ok":
            m.violate("href cannot be assigned after an interrupted change", line=w.where, op=op)
            return
        mu = M.MURL(href)
        for o in [None] + list(after):
            if o is not None and o[0] == "set":
                mu.set(o[1], o[2])
                observe(E, setattr, u, o[1], o[2])
            elif o is not None:
                getattr(mu.params, o[1])(*o[2])
                observe(E, getattr(sp, o[1]), *o[2])
            if u.search_params is not sp or not cmp_getters(m, "href assigned after an interrupted change", u, mu):
                if u.search_params is not sp:
                    m.violate("search_params object identity changed by an interrupted change", line=w.where, op=op)
                return


# ------------------------------------------------------------ retention
def _uniq(j, n):
    """the job with inputs nobody has used before (@@: a serial number)"""
    def v(x):
        if isinstance(x, str):
            return x.replace("@@", str(n))
        if isinstance(x, bytes):
            return x.replace(b"@@", str(n).encode())
        if isinstance(x, (list, tuple)):
            return type(x)(v(y) for y in x)
        return x
    return tuple(v(x) for x in j)


def _rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def retention(m, jobs, base, batch, slack):
    """Calls with ever new inputs, results dropped: what stays allocated does
    not keep growing, nor do loggers, threads and descriptors, and a call takes
    the same number of steps as at the start."""
    P, E = H.load()
    base_rec, base_url = P.parse_url(base), P.URL(base)

    live = P.URL(base)
    state = P.ValidityState()

    def one(j):
        if j[0] != "live":
            _job_run(P, E, j, base_rec, base_url)
            return
        # long-lived objects: one URL, its parameters, one validity state
        for op in j[1]:
            if op[0] == "set":
                observe(E, setattr, live, op[1], op[2])
            elif op[0] == "params":
                observe(E, getattr(live.search_params, op[1]), *op[2])
            elif op[0] == "copy":
                P.URLSearchParams(live.search_params).append(op[1], "1")
                copy.deepcopy(live)
            else:
                observe(E, P.URLValidator.is_valid, op[1], validity=state)
                observe(E, P.HostValidator.is_valid, op[1], validity=state)
                observe(E, P.URL.can_parse, op[1], live, validity=state)

    def run(n):
        t0 = time.process_time()
        for i in range(n):
            serial[0] += 1
            one(_uniq(jobs[i % len(jobs)], serial[0]))
            if i % 64 == 63 and time.process_time() - t0 > 30:
                return i + 1
        return n

    def steps():
        out = []
        for j in jobs:
            j = _uniq(j, 10 ** 6)  # as long as the others
            one(j)
            with H.Steps() as st:
                one(j)
            out.append(st.n)
        return out

    def census():
        gc.collect()
        return (len(logging.root.manager.loggerDict), threading.active_count(), len(os.listdir("/proc/self/fd")))

    serial = [10 ** 6 + m.rng.randrange(10 ** 7) * 10]
    H._timers(400, 600)
    run(len(jobs))
    s0 = steps()
    run(batch)
    c0 = census()
    grown = []

    def batches():
        """bytes per call that stay, in a batch: traced, resident"""
        tracemalloc.start(1)
        try:
            run(batch // 4)
            gc.collect()
            a, ra = tracemalloc.get_traced_memory()[0], _rss()
            n = run(batch)
            gc.collect()
            grown.append(((tracemalloc.get_traced_memory()[0] - a) / n, (_rss() - ra) / n))
        finally:
            tracemalloc.stop()
        m.count("retention_calls", batch)
        m.count("retention_batches")

    def steady():
        return min(x for x, _ in grown[-3:]) < slack and min(y for _, y in grown[-3:]) < 400

    batches()
    if not steady():
        # a bounded cache may be filling: many more calls, then look again
        t0, n = time.process_time(), 0
        while n < 50000 and time.process_time() - t0 < 25:
            run(500)
            n += 500
        grown.clear()
        for _ in range(3):
            batches()
            if steady():
                break
        else:
            try:
                m.violate("memory keeps growing with the number of calls", bytes_per_call=[round(x) for x, _ in grown], rss_per_call=[round(x) for _, x in grown], calls=n + 4 * batch)
            finally:
                if m.alarm is not None:  # (each further one would take as long)
                    raise H.StopWork
            return
    c1 = census()
    m.feature("retention", tuple(j[0] for j in jobs), len(grown), tuple(s0))
    if c1[0] > c0[0] + 50 or c1[1] > c0[1] + 8 or c1[2] > c0[2] + 20:
        m.violate("loggers, threads or descriptors accumulate", before=c0, after=c1)
        return
    s1 = steps()
    for j, x, y in zip(jobs, s0, s1):
        m.count("retention_probes")
        if y > 3 * x + 500:
            m.violate("a call takes more steps the more calls there have been", job=j, before=x, after=y)
            return
