From 218a42afabb87935ad373d0acfda848aa7463338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 01/12] fix: bound the digits of a port before converting it

int() raises a plain ValueError for more than 4300 digits, and leading
zeros do not make a port too big.
---
 src/urlstd/parse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..d815f08 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3682,17 +3682,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    digits = buffer.lstrip("0") or "0"
+                    if len(digits) > 5 or int(digits) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            digits,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {digits} in {urlstring!r}"
                         )
+                    port = int(digits)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From ab374c8b243b95289b0dce791890aaaf380d5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 02/12] fix: bound the digits of an IPv4 part embedded in an
 IPv6 address

int() raises a plain ValueError for more than 4300 digits.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d815f08..1891f1f 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1445,7 +1445,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
-- 
2.43.0


From e7d89c2c6484cc679e73802113880616282e099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 03/12] fix: accept only radix-R digits in an IPv4 number

int() also accepts underscores, signs, white space, a second radix prefix
and non-ASCII digits.
---
 src/urlstd/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 1891f1f..32f3dd1 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,6 +1186,9 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
+        digits = {8: string.octdigits, 10: ASCII_DIGITS, 16: ASCII_HEX_DIGITS}
+        if any(c not in digits[r] for c in address):
+            return -1, True
         try:
             return int(address, r), validation_error
         except ValueError:
-- 
2.43.0


From a95106e82c6bc6915174cc945d606e221052a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 04/12] fix: reject an IPv4 address with an oversized part
 before the last

It was only rejected when the last part was at most 255, so that
'300.300' was accepted with a value beyond 32 bits.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 32f3dd1..30ae394 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1268,7 +1268,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 87028d3dcccbfc84906b6f5f72bd325a2aec1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 05/12] fix: treat port 0 as a port in the scheme and host
 setters

---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 30ae394..7f48a7e 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3386,7 +3386,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3907,7 +3909,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From 3a7791688328c8aaeef8a018e69b43144f73b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 06/12] fix: replace lone surrogates before IDNA processing

icu.UnicodeString() raises TypeError for them.
---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 7f48a7e..10e3c0a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1038,6 +1038,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
@@ -1117,6 +1118,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
-- 
2.43.0


From 4022c01cbeecb7709d71be07314537ae0ae28508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:03 +0000
Subject: [PATCH 07/12] fix: percent-encode U+007E (~) in
 application/x-www-form-urlencoded

urllib's quote() never encodes it, although the serializer's safe set
does not contain it.
---
 src/urlstd/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 10e3c0a..12dc320 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -410,13 +410,13 @@ def urlencode(
             SAFE_URLENCODED_PERCENT_ENCODE_SET,
             encoding=encoding,
             space_as_plus=True,
-        )
+        ).replace("~", "%7E")
         value = string_percent_encode(
             value,
             SAFE_URLENCODED_PERCENT_ENCODE_SET,
             encoding=encoding,
             space_as_plus=True,
-        )
+        ).replace("~", "%7E")
         params.append(f"{name}={value}")
     return "&".join(params)
 
-- 
2.43.0


From f2b647599242a79b5ed83caccf52dae63acf5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:03 +0000
Subject: [PATCH 08/12] fix: do not percent-decode names and values given to
 URLSearchParams

They are plain strings; only invalid surrogates are replaced, as in the
constructor, so that what was stored can be looked up again.
---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 12dc320..9a92100 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2120,8 +2120,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(str(name)))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2159,7 +2159,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(str(name)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2194,7 +2194,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(str(name)))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2217,7 +2217,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(str(name)))
         return tuple(
             [
                 name_value[1]
@@ -2240,7 +2240,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(str(name)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2273,8 +2273,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(str(name)))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 0e8be64d6b3c267090255f440c9deb7004bf855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:26 +0000
Subject: [PATCH 09/12] fix: normalise the value given to URLSearchParams.has()
 and delete()

Stored values are strings without invalid surrogates, so that a number or
a lone surrogate never matched.
---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9a92100..66deefd 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2160,6 +2160,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(str(name)))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2241,6 +2243,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(str(name)))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 2d70dde02306033edae07362492e4f0b036b9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:41 +0000
Subject: [PATCH 10/12] fix: keep the path of a file base URL for an empty
 reference

---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 66deefd..965cc3c 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3195,6 +3195,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From 1bbbc912c243a4936dab0fab4b27ee64ad552654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 11/12] fix: accept an IPv6 address whose last piece is
 compressed

---
 src/urlstd/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 965cc3c..869ed90 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1339,6 +1339,8 @@ class IPv6Address:
         piece = ""
         previous: Optional[str] = None
         for c in cpstream(address[start:]):
+            if previous == ":" and iseof(c) and piece_index == compress:
+                break
             if piece_index >= 8:
                 log.error(
                     "IPv6-too-many-pieces: "
@@ -1370,8 +1372,6 @@ class IPv6Address:
                 compress = piece_index
                 continue
             elif previous == ":" and iseof(c):
-                if compress is not None and piece_index == compress:
-                    break
                 log.error(
                     "IPv6-invalid-code-point: "
                     "IPv6 address unexpectedly ends: %r",
-- 
2.43.0


From 54a9ec2eb862251a329ce41f6aada33b2e1ca0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 12/12] fix: reject an IPv6 address that goes on after its IPv4
 part

---
 src/urlstd/parse.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 869ed90..356e1e7 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1476,6 +1476,19 @@ class IPv6Address:
                     f"IPv6 address with IPv4 address syntax: "
                     f"IPv4 address contains too few parts: {piece!r} in {address!r}"
                 )
+            elif not iseof(c):
+                log.error(
+                    "IPv4-in-IPv6-invalid-code-point: "
+                    "IPv6 address with IPv4 address syntax: "
+                    "IPv4 part is not at the end: %r in %r",
+                    piece,
+                    address,
+                    **kwargs,
+                )
+                raise IPv6AddressParseError(
+                    f"IPv6 address with IPv4 address syntax: "
+                    f"IPv4 part is not at the end: {piece!r} in {address!r}"
+                )
             ipv6_address[piece_index] = int(ipv4_pieces[0]) * 0x100 + int(
                 ipv4_pieces[1]
             )
-- 
2.43.0

