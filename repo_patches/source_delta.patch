From 16b25c3628cccfc49a0cce7e54ca25f1a793d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 01/15] fix: IPv4 number parser accepts only digits of its
 radix

int(s, radix) also accepts "_" separators, a sign, a second radix prefix,
surrounding whitespace and non-ASCII digits, so "1_0", "+4" or "0x0x1" were
taken for numbers.
---
 src/urlstd/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..d377da0 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1173,18 +1173,23 @@ class IPv4Address:
 
         validation_error = False
         r = 10
+        digits = ASCII_DIGITS
         if len(address) >= 2:
             if address[:2] in ["0x", "0X"]:
                 validation_error = True
                 address = address[2:]
                 r = 16
+                digits = ASCII_HEX_DIGITS
             elif address[0] == "0":
                 validation_error = True
                 address = address[1:]
                 r = 8
+                digits = "01234567"
 
         if len(address) == 0:
             return 0, True
+        if any(c not in digits for c in address):
+            return -1, True
 
         try:
             return int(address, r), validation_error
-- 
2.43.0


From 919e54e9cc82473e6ae26d759626e8453c8d6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 02/15] fix: reject an IPv4 address whose leading part exceeds
 255

The check was skipped when the last part exceeded 255 as well, so
"256.256" produced an address above 2**32 - 1.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d377da0..90e6ba5 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1270,7 +1270,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 9deb2bbedb97bacc738477fa09aba41196e54eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 03/15] fix: IPv6 parser: compression at the ends and trailing
 IPv4 address

"[:::1]" and "[::1.2.3.4:5]" were accepted, "[1:2:3:4:5:6:7::]" was
rejected.
---
 src/urlstd/parse.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 90e6ba5..b8a0f47 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1318,12 +1318,14 @@ class IPv6Address:
         log = get_logger(cls)
         piece_index = 0
         compress: Optional[int] = None
+        previous: Optional[str] = None
         start = 0
         if address[0:1] == ":":
             if address[1:2] == ":":
                 start += 2
                 piece_index += 1
                 compress = piece_index
+                previous = ":"
             else:
                 log.error(
                     "IPv6-invalid-compression: "
@@ -1337,9 +1339,8 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
@@ -1426,13 +1427,17 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
-                [
-                    len(x) == 0
-                    or any(y not in ASCII_DIGITS for y in x)
-                    or (len(x) >= 2 and x[0] == "0")
-                    for x in ipv4_pieces
-                ]
+            if (
+                not iseof(c)
+                or len(ipv4_pieces) > 4
+                or any(
+                    [
+                        len(x) == 0
+                        or any(y not in ASCII_DIGITS for y in x)
+                        or (len(x) >= 2 and x[0] == "0")
+                        for x in ipv4_pieces
+                    ]
+                )
             ):
                 log.error(
                     "IPv4-in-IPv6-invalid-code-point: "
-- 
2.43.0


From 78c0ec4a96b481e02ed3e1868d6ed9e36c56b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 04/15] fix: no ValueError for ports and IPv4-in-IPv6 parts
 with thousands of digits

int() raises ValueError beyond sys.get_int_max_str_digits() digits.
---
 src/urlstd/parse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index b8a0f47..6b2823c 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1455,7 +1455,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
@@ -3692,17 +3692,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    digits = buffer.lstrip("0") or "0"
+                    if len(digits) > 5 or int(digits) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            digits,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {digits} in {urlstring!r}"
                         )
+                    port = int(digits)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From 23d42967c8f3bab024d87ff6e5b15dc453b1219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 05/15] fix: no ValueError for a huge hexadecimal or octal IPv4
 part

Formatting the parsed numbers into the error message fails beyond
sys.get_int_max_str_digits() digits, e.g. for "0x" followed by 5000 "f".
---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 6b2823c..0683b72 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1260,7 +1260,9 @@ class IPv4Address:
                     address,
                     **kwargs,
                 )
-            numbers.append(result[0])
+            # Larger numbers are out of range all the same, and may be too long
+            # to be converted to a string.
+            numbers.append(min(result[0], 256**4))
 
         if any(x > 255 for x in numbers):
             log.info(
-- 
2.43.0


From 80fa5f38b28c5cad5184df2bb306eefd5a220faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 06/15] fix: resolving an empty reference against a file URL
 keeps the path

URL('', 'file:///a/b') produced file:///a/b/.
---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 0683b72..0e33848 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3198,6 +3198,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From df8f545c6b43f77a80e690e6e10f82253182c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 07/15] fix: port 0 counts as a port in the host and protocol
 setters

host = "" was applied to "foo://h:0/", and protocol = "file" to
"http://h:0/".
---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 0e33848..c9d31bc 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3396,7 +3396,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3917,7 +3919,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From 8f4af8b3afee1622a572cb74585b0a1dbf7f1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 08/15] fix: percent-encode a surrogate pair in an opaque path
 as one code point

The opaque path was encoded one str element at a time, so a surrogate pair
became two U+FFFD, unlike in every other component.
---
 src/urlstd/parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index c9d31bc..f1d2a18 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3469,9 +3469,15 @@ class BasicURLParser:
         del base
         log = get_logger(cls)
         index = start
-        # TODO: Use buffer.
+        buffer = ""
         for c in cpstream(urlstring[index:]):
             index += 1
+            if iseof(c) or iscp(c, "?#"):
+                # Percent-encode the whole path at once, so that surrogate
+                # pairs are not torn apart.
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3511,9 +3517,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From 2b3a8608d0d5c27a7588b1ce0a988bd782f07b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 09/15] fix: no TypeError for surrogates in
 IDNA.domain_to_ascii/domain_to_unicode

icu.UnicodeString() takes no str with surrogates; replace invalid ones with
U+FFFD, which IDNA then reports, and combine pairs.
---
 src/urlstd/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f1d2a18..b51fb09 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1052,8 +1052,9 @@ class IDNA:
                 allowed_errors |= cls._VERIFY_DNS_LENGTH_ERRORS
             uts46 = cls._create_instance(options)
             dest = icu.UnicodeString()
+            usv_domain = utf8_decode(utf8_encode(domain))
             uts46.name_to_ascii(
-                icu.UnicodeString(domain, u16len(domain)),
+                icu.UnicodeString(usv_domain, u16len(usv_domain)),
                 dest,
                 info,
             )
@@ -1131,8 +1132,9 @@ class IDNA:
                 options |= icu.UIDNA_USE_STD3_RULES
             uts46 = cls._create_instance(options)
             dest = icu.UnicodeString()
+            usv_domain = utf8_decode(utf8_encode(domain))
             uts46.name_to_unicode(
-                icu.UnicodeString(domain, u16len(domain)),
+                icu.UnicodeString(usv_domain, u16len(usv_domain)),
                 dest,
                 info,
             )
-- 
2.43.0


From 72971446b927c76c70bb2521ef60ef6306f49adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 10/15] fix: urlencode() percent-encodes "~"

"~" is in the application/x-www-form-urlencoded percent-encode set and is
removed from SAFE_URLENCODED_PERCENT_ENCODE_SET, but urllib.parse.quote()
treats it as always safe.
---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index b51fb09..877a83e 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -417,7 +417,8 @@ def urlencode(
             encoding=encoding,
             space_as_plus=True,
         )
-        params.append(f"{name}={value}")
+        # urllib.parse.quote() never encodes "~".
+        params.append(f"{name}={value}".replace("~", "%7E"))
     return "&".join(params)
 
 
-- 
2.43.0


From d4742ad3a0f33dc10c0971fb4d2b35263b40a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 11/15] fix: URLSearchParams methods do not percent-decode
 names and values

append('a', '%20') stored a space, and get('%41') found 'A'. Only the query
string is percent-encoded; names and values are plain strings.
---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 877a83e..86073d7 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2130,8 +2130,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2169,7 +2169,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2204,7 +2204,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2227,7 +2227,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2250,7 +2250,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2283,8 +2283,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 92f2ea609b536053a243db04fb2428be04d39513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 12/15] fix: URLSearchParams.has()/delete() convert the value
 to a string

A number, which both accept and append() converts, never matched.
---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 86073d7..367fbaa 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2170,6 +2170,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2251,6 +2253,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 4bb1a33d5bae48bd7ab3bf859c7b4792c8596078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:25 +0000
Subject: [PATCH 13/15] fix: validation works whatever class the loggers have

The "validity" argument was understood only by loggers created through
logging.setLoggerClass(). When the application had configured a urlstd
logger before importing urlstd.parse, or set a logger class of its own,
can_parse() and the validators failed with a TypeError. Wrap the logger
instead, which also leaves the process-wide logger class alone.
---
 src/urlstd/parse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 367fbaa..4b2cac1 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -160,7 +160,7 @@ def cpstream(s: str) -> Iterable[str]:
         yield ""  # EOF
 
 
-def get_logger(context: Any) -> logging.Logger:
+def get_logger(context: Any) -> _Logger:
     name = None
     if isinstance(context, str):
         name = context
@@ -168,7 +168,7 @@ def get_logger(context: Any) -> logging.Logger:
         name = f"{context.__module__}.{context.__name__}"
     elif hasattr(context, "__module__") and hasattr(context, "__class__"):
         name = f"{context.__module__}.{context.__class__.__name__}"
-    return logging.getLogger(name)
+    return _Logger(logging.getLogger(name))
 
 
 def iscp(c: str, target: str) -> bool:
@@ -553,13 +553,16 @@ def utf8_percent_encode(s: str, safe: str, space_as_plus: bool = False) -> str:
     )
 
 
-class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
+class _Logger:
+    def __init__(self, logger: logging.Logger) -> None:
+        self._logger = logger
+
     def debug(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
         validity: ValidityState | None = kwargs.pop("validity", None)
         if validity and validity.disable_logging:
             return
-        super().debug(msg, *args, **kwargs)
+        self._logger.debug(msg, *args, **kwargs)
 
     def error(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -568,7 +571,7 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().error(msg, *args, **kwargs)
+        self._logger.error(msg, *args, **kwargs)
 
     def info(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -577,7 +580,7 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().info(msg, *args, **kwargs)
+        self._logger.info(msg, *args, **kwargs)
 
 
 class Host:
@@ -4389,6 +4392,3 @@ def parse_url(
     #  https://url.spec.whatwg.org/#url-parsing
     #  https://w3c.github.io/FileAPI/#blob-url-resolve
     return url
-
-
-logging.setLoggerClass(_Logger)
-- 
2.43.0


From 5d50ee356dce3aff5bdebb45a1f2664b75e1f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:52 +0000
Subject: [PATCH 14/15] fix: read the registered schemes as UTF-8 whatever the
 locale

---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4b2cac1..8dc9a59 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -144,7 +144,9 @@ UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
 ERROR_TYPE_UNDEFINED = "undefined"
 
 with gzip.open(
-    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz", "rt"
+    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
+    "rt",
+    encoding="utf-8",
 ) as f:
     REGISTERED_SCHEMES: list[str] = [
         x["URI Scheme"] for x in csv.DictReader(f.read().split("\n"))
-- 
2.43.0


From 8ff4891cd89786e6902818536b2267280f61eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 15/15] fix: a scheme that is not ASCII is not a registered one

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 8dc9a59..d29a514 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2990,7 +2990,7 @@ U+007C (|) in 'file:///C|/demo' at position 9"],
 
         # https://url.spec.whatwg.org/#url-scheme-string
         scheme = value.lower()
-        if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
+        if value.isascii() and len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
             return True
         validity.prepend(
             "scheme is not registered in the IANA URI Schemes registry: %r",
-- 
2.43.0

