From 119892cec1e14dfad1f5743afbcd71ad6bb5e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 01/72] fix: enforce minf/maxf when decoding Number values

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From b4f07a803cf17e48891e072e39b0efe78b145809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 02/72] fix: Map with id option could not be encoded or decoded
 in verbose string mode

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..ba94c8f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -325,7 +325,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -360,7 +360,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From 7ecf47e36c3f3ea22a3d7447ce0fc658c2cf2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 03/72] fix: refuse non-text serialized values when decoding
 Binary, Array and Integer formats

---
 .../src/jadn/codec/format_serialize_json.py   | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..d84af27 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -37,6 +37,16 @@ def get_format_decode_function(format_table: FormatTable, base_type: str, format
     return _codec_function(format_table, base_type, format_kw, 1)
 
 
+def _check_text(sval: Any) -> str:      # Serialized values are text, refuse anything else
+    if not isinstance(sval, str):
+        raise TypeError(f'{sval} is not text')
+    return sval
+
+
+def _check_addr(sval: Any) -> Any:      # IP address is text, or bytes when it is part of an IP net that is already decoded
+    return sval if isinstance(sval, bytes) else _check_text(sval)
+
+
 # Binary to String, String to Binary conversion functions
 def b2s_hex(bval: bytes) -> str:      # Convert from binary to hex string
     return base64.b16encode(bval).decode()
@@ -44,7 +54,7 @@ def b2s_hex(bval: bytes) -> str:      # Convert from binary to hex string
 
 def s2b_hex(sval: str) -> bytes:      # Convert from hex string to binary
     try:
-        return base64.b16decode(sval)
+        return base64.b16decode(_check_text(sval))
     except binascii.Error:
         raise TypeError
 
@@ -55,7 +65,7 @@ def b2s_hex_lc(bval: bytes) -> str:      # Convert from binary to hex string
 
 def s2b_hex_lc(sval: str) -> bytes:      # Convert from hex string to binary
     try:
-        return base64.b16decode(sval, casefold=True)
+        return base64.b16decode(_check_text(sval), casefold=True)
     except binascii.Error:
         raise TypeError
 
@@ -65,7 +75,7 @@ def b2s_base64url(bval: bytes) -> str:      # Convert from binary to base64url s
 
 
 def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to binary
-    v = sval
+    v = _check_text(sval)
     if mod := len(sval) % 4:  # Pad b64 string out to a multiple of 4 characters
         v = f"{sval}{'=' * (4-mod)}"
     if set(v) - set(string.ascii_letters + string.digits + '-_='):  # Python 2 doesn't support Validate
@@ -82,11 +92,11 @@ def b2s_ipv6_addr(bval: bytes) -> str:        # Convert ipv6 address from binary
 
 
 def s2b_ipv4_addr(sval: str) -> bytes:    # Convert IPv4 addr from string to binary
-    return IPv4Address(sval).packed
+    return IPv4Address(_check_addr(sval)).packed
 
 
 def s2b_ipv6_addr(sval: str) -> bytes:    # Convert IPv6 address from string to binary
-    return IPv6Address(sval).packed
+    return IPv6Address(_check_addr(sval)).packed
 
 
 def b2s_uuid(bval: bytes) -> str:   # Convert RFC 4122 UUID from 128 bit value to text representation
@@ -130,7 +140,7 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
 
 
 def s2a_ipv4_net(sval: str) -> [str, int]:
-    sv = sval.split('/', 1)
+    sv = _check_text(sval).split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
@@ -139,7 +149,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
-    sv = sval.split('/', 1)
+    sv = _check_text(sval).split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
@@ -152,7 +162,7 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
-    t, u = sval.split('-', maxsplit=1)
+    t, u = _check_text(sval).split('-', maxsplit=1)
     return [t, u]
 
 
@@ -171,7 +181,7 @@ def int2datems(dt: int) -> str:
 
 
 def datems2int(dts: str) -> int:
-    x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
+    x = datetime.fromisoformat(_check_text(dts).upper().replace('Z', '+00:00').replace(' ', 'T'))
     return int(1000 * datetime.timestamp(x))
 
 
-- 
2.43.0


From 2269eede3bf59e1dbd5859e41d7bdf64bef88e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 04/72] fix: refuse to decode an anyOf Choice when none of its
 alternatives is valid

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index ba94c8f..07f6c71 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and ct == 0:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From a5bce6d15054cec37e45c3fc92411e9b27ad641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 05/72] fix: treat a TypeError from an alternative of an
 untagged Choice as a failed alternative

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07f6c71..140a068 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From eee0a778c99673f3db09acb30ba0378505c8038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 06/72] fix: decode the keys of a MapOf value

---
 distribution/src/jadn/codec/codec.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 140a068..bcc028e 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -474,10 +474,25 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
     return {codec.encode(to['ktype'], k): codec.encode(to['vtype'], v) for k, v in aval.items()}
 
 
+def _decode_map_key(ktype: str, key, codec: 'Codec'):
+    kts = codec.symtab.get(ktype)
+    if kts is not None and isinstance(key, str):    # JSON object keys are always text, convert numeric keys back
+        base_type = kts.TypeDef.BaseType
+        try:
+            if base_type == 'Integer' or (base_type == 'Enumerated' and isinstance(next(iter(kts.dMap), None), int)):
+                key = int(key)
+            elif base_type == 'Number':
+                key = float(key)
+        except ValueError:
+            pass                                    # Leave text as is for the key type to convert or reject
+    return codec.decode(ktype, key)
+
+
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    return {_decode_map_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 533c0dbe8ebfe1e0701823aa48cf342b4ce917eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 07/72] fix: count the elements of a decoded Array, not the
 characters of its serialized text

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index bcc028e..6fcc560 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -423,10 +423,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
-        _extra_value(ts, val, set(aval[len(ts.Fld):]))
+        _extra_value(ts, val, val[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
         fx = f[FieldID] - 1
-- 
2.43.0


From c564aee35f873edf28611f3cd57d5e483e5d2506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 08/72] fix: fields with an external choice tag: use the right
 tag key in every mode, allow the field to be omitted, report a missing tag

---
 distribution/src/jadn/codec/__init__.py |  8 +++----
 distribution/src/jadn/codec/codec.py    | 31 ++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..2bc0ecc 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -71,15 +71,15 @@ class Codec:
 
     def set_mode(self, verbose_rec=False, verbose_str=False):
         # Build symbol table field entries
-        def symf(fld: GenFieldDefinition, fa: int, fnames: dict) -> SymbolTableFieldDefinition:
+        def symf(fld: GenFieldDefinition, fnames: dict) -> SymbolTableFieldDefinition:
             fo, to = ftopts_s2d(fld.FieldOptions)
             if to:
                 raise_error(f'Validation Error: {fld.FieldName}: internal error: unexpected type options: {to}')
             fopts = {'minc': 1, 'maxc': 1, **fo}
             assert fopts['minc'] in (0, 1) and fopts['maxc'] == 1     # Other cardinalities have been simplified
-            ctag: Optional[int] = None
+            ctag: Optional[str] = None
             if 'tagid' in fopts:
-                ctag = fopts['tagid'] if fa == FieldID else fnames[fopts['tagid']]
+                ctag = fnames[fopts['tagid']]       # API values always use field names
             return SymbolTableFieldDefinition(
                 fld,        # SF_DEF: JADN field definition
                 fopts,      # SF_OPT: Field options (dict)
@@ -120,7 +120,7 @@ class Codec:
                 except IndexError as e:
                     raise IndexError(f'symval index error: {e}')
                 if t.BaseType != 'Enumerated':
-                    symval.Fld = {f[fx]: symf(f, fa, fnames) for f in t.Fields}
+                    symval.Fld = {f[fx]: symf(f, fnames) for f in t.Fields}
             if t.BaseType in ('Binary', 'String', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'):
                 minv = symval.TypeOpts.get('minv', 0)
                 maxv = symval.TypeOpts.get('maxv', 0)
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 6fcc560..9e54902 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -19,7 +19,7 @@ def echo(val: Any) -> Any:
 class SymbolTableFieldDefinition(BasicDataclass):
     Def: GenFieldDefinition     # 0: JADN field definition
     Opt: dict                   # 1: Field Options (dict format)
-    cTag: Optional[int]         # 2: Field containing external choice tag (tagid option)
+    cTag: Optional[str]         # 2: Field containing external choice tag (tagid option)
 
 
 # Symbol Table fields
@@ -83,6 +83,11 @@ def _bad_value(ts: SymbolTableField, val: Any, fld: GenFieldDefinition = None) -
         raise_error(f'{td.TypeName}({td.BaseType}): bad value: {v}')
 
 
+def _bad_tag(ts: SymbolTableField, val: Any, tag: Union[int, str]) -> None:
+    td = ts.TypeDef
+    raise_error(f'{td.TypeName}({td.BaseType}): missing tag field "{tag}": {val}')
+
+
 # fail forces rejection of boolean vals for number types
 def _check_type(ts: SymbolTableField, val: Any, vtype: type, fail=False) -> None:
     if vtype is not None:
@@ -335,7 +340,9 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            if ctag not in aval:
+                _bad_tag(ts, aval, ctag)
             e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
             sv = next(iter(e.values()))
         else:
@@ -377,8 +384,14 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                if isinstance(val, dict):
+                    tag = val.get(ctag if fx == FieldName else fopts['tagid'])
+                else:
+                    ct = fopts['tagid'] - 1
+                    tag = val[ct] if len(val) > ct else None
+                if tag is None:
+                    _bad_tag(ts, val, ctag)
+                av = codec.decode(fd.FieldType, {tag: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
@@ -405,7 +418,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
+                tx = int(fopts['tagid']) - 1
+                choice_type = aval[tx] if len(aval) > tx else None
+                if choice_type is None:
+                    _bad_tag(ts, aval, fopts['tagid'])
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
             else:
@@ -434,7 +450,10 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
+                tx = int(fopts['tagid']) - 1
+                choice_type = val[tx] if len(val) > tx else None
+                if choice_type is None:
+                    _bad_tag(ts, val, fopts['tagid'])
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
             else:
-- 
2.43.0


From 8eef42732464d858b31a452206c19eecbc026028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 09/72] fix: email and hostname formats apply to the whole
 text, and an empty hostname is refused with ValueError

---
 distribution/src/jadn/codec/format_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..3bf86bf 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval):
         return sval
     raise ValueError
 
@@ -46,12 +46,12 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname.endswith("."):
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
     allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From ec264489cc19008771acfabdbddcb2cd93828272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 10/72] fix: datetime-ms decoding lost a millisecond for some
 timestamps

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index d84af27..440d9c7 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -182,7 +182,7 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(_check_text(dts).upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return round(1000 * datetime.timestamp(x))
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 79e28738602c93cf2e13801afdb03a1603304e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 11/72] fix: report an out of range datetime-ms timestamp as
 ValueError

---
 distribution/src/jadn/codec/format_serialize_json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 440d9c7..2c8fb17 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -174,7 +174,10 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    try:
+        y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    except (OverflowError, OSError) as e:
+        raise ValueError(f'{dt} is not a timestamp') from e
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
-- 
2.43.0


From c250472727b519029781460dad5a565a9d657e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 12/72] fix: datetime-ms encoding lost a millisecond for far
 timestamps

---
 distribution/src/jadn/codec/format_serialize_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 2c8fb17..638af35 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -175,7 +175,8 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 def int2datems(dt: int) -> str:
     try:
-        y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+        x = datetime.fromtimestamp(dt // 1000, timezone.utc)    # whole seconds, exact
+        y = datetime.isoformat(x.replace(microsecond=dt % 1000 * 1000))
     except (OverflowError, OSError) as e:
         raise ValueError(f'{dt} is not a timestamp') from e
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
-- 
2.43.0


From 0046f840e93185514e552c2c30d290f98341599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 13/72] fix: a boolean is not a valid item of an Enumerated
 type with integer ids

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 9e54902..927169f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -237,7 +237,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap))), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -245,7 +245,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap))), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 27ebaf2200f2393b55d5c82b9dfe4cd0a02773e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 14/72] fix: values of an Enumerated or Choice without items
 are refused with ValueError, not StopIteration

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 927169f..89eb282 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -116,7 +116,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
@@ -237,7 +237,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))), isinstance(aval, bool))
+    _check_type(ts, aval, type(next(iter(ts.eMap), None)), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -245,7 +245,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))), isinstance(sval, bool))
+    _check_type(ts, sval, type(next(iter(ts.dMap), None)), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 1718e32f641806ae14982ba03575d4faceb31fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 15/72] fix: a hostname with characters outside ASCII is
 refused

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 3bf86bf..2c6a423 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -50,7 +50,7 @@ def s_hostname(sval: str) -> str:
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE | re.ASCII)
     if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
-- 
2.43.0


From 73a22da85783db2e92bac91b39a07186abe7d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 16/72] fix: email addresses with upper case letters are valid

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 2c6a423..1074298 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.fullmatch(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
-- 
2.43.0


From 71b2c4d5d6e9274f18204b6f4fc338584032483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 17/72] fix: the prefix length of an IP net is a decimal number
 without sign, blanks or underscores

---
 distribution/src/jadn/codec/format_serialize_json.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 638af35..49379cc 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -139,10 +139,16 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
+def _prefix_len(sval: str) -> int:      # Decimal digits only: int() also allows signs, blanks and underscores
+    if not (sval.isascii() and sval.isdigit()):
+        raise ValueError(f'{sval} is not a prefix length')
+    return int(sval)
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
     sv = _check_text(sval).split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 32
+    prefix_len = _prefix_len(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
     return [sa, prefix_len]
@@ -151,7 +157,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 def s2a_ipv6_net(sval: str) -> [str, int]:
     sv = _check_text(sval).split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 128
+    prefix_len = _prefix_len(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
     return [sa, prefix_len]
-- 
2.43.0


From 6525473eaa08205c7309b24bafd65797355343e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 18/72] fix: an Enumerated item may be described by the name of
 a structured type

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..962aff0 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -94,7 +94,7 @@ def check(schema: dict) -> dict:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
         for fd in fields:
-            if has_fields(fd[FieldType]):
+            if has_fields(type_def.BaseType) and has_fields(fd[FieldType]):     # an Enumerated item has no type
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
 
-- 
2.43.0


From a6c04ccb70daa56f1678863e51ef79ab0cbd171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 19/72] fix: an external tag with id 0 must be a field of the
 type too

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 962aff0..e47d3e9 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
-- 
2.43.0


From 0bf721efd70e6a9e31102ff1ac6792d8bc4309f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 20/72] fix: read and write text files as UTF-8 whatever the
 locale

---
 distribution/src/jadn/convert/diagram_w.py      | 2 +-
 distribution/src/jadn/convert/html.py           | 2 +-
 distribution/src/jadn/convert/jas_w.py          | 2 +-
 distribution/src/jadn/convert/markdown.py       | 2 +-
 distribution/src/jadn/convert/proto.py          | 2 +-
 distribution/src/jadn/core.py                   | 4 ++--
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..5f3aff1 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -181,7 +181,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..1e66992 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -175,7 +175,7 @@ def html_loads(hdoc: str) -> dict:
 
 
 def html_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+    with open(fname, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
 
diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index 61f8006..88b0363 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -146,7 +146,7 @@ def jas_dumps(schema: dict) -> str:
 
 
 def jas_dump(schema: dict, fname: Union[bytes, str, int], source='') -> NoReturn:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'-- Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(jas_dumps(schema))
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..314dd88 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -153,7 +153,7 @@ def markdown_loads(doc: str) -> dict:
 
 
 def markdown_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+    with open(fname, 'r', encoding='utf8') as f:
         return markdown_loads(f.read())
 
 
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index 6f13385..e9dd772 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -147,7 +147,7 @@ def proto_loads(doc: str) -> dict:
 
 
 def proto_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+    with open(fname, 'r', encoding='utf8') as f:
         return proto_loads(f.read())
 
 
diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index e47d3e9..8478b55 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -64,10 +64,10 @@ def check(schema: dict) -> dict:
     schema['types'] = [list(t) for t in schema_types]
 
     data_path = data_dir()
-    with open(os.path.join(data_path, 'jadn_v1.1_schema.json')) as f:     # Check using JSON Schema for JADN
+    with open(os.path.join(data_path, 'jadn_v1.1_schema.json'), encoding='utf8') as f:     # Check using JSON Schema for JADN
         jsonschema.Draft7Validator(json.load(f)).validate(schema)
 
-    with open(os.path.join(data_path, 'jadn_v1.1_schema.jadn')) as f:     # Optional: check using JADN meta-schema
+    with open(os.path.join(data_path, 'jadn_v1.1_schema.jadn'), encoding='utf8') as f:     # Optional: check using JADN meta-schema
         meta_schema = jadn.codec.Codec(json.load(f), verbose_rec=True, verbose_str=True, config=schema)
         assert meta_schema.encode('Schema', schema) == schema
 
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..0725391 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -435,7 +435,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
         f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
-- 
2.43.0


From dd591f7496c8c1b7b462eba247f00413b3295961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 21/72] fix: conversions, analyze and topts_s2d do not depend
 on the order of sets

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jas_w.py    | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 distribution/src/jadn/convert/proto.py    | 2 +-
 distribution/src/jadn/core.py             | 4 ++--
 distribution/src/jadn/utils.py            | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 1e66992..d1c06ac 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -66,7 +66,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index 88b0363..b8e75a5 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -48,7 +48,7 @@ def jas_dumps(schema: dict) -> str:
     if info := schema.get('info'):
         jas += '/*\n'
         mlist = [k for k in INFO_ORDER if k in info]
-        for h in mlist + list(set(info) - set(mlist)):
+        for h in mlist + [k for k in info if k not in mlist]:
             if h == 'description':
                 jas += fill(info[h], width=80, initial_indent='{0:14} '.format(h+':'), subsequent_indent=15*' ') + '\n'
             elif h == 'imports':
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..ef4b9a4 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -51,7 +51,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 314dd88..b63df9e 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index e9dd772..81b3388 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -60,7 +60,7 @@ def proto_dumps(schema: dict, style: dict = None) -> str:
     text = 'syntax = "proto3";\n'
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         if k == 'package':
             text += f'package {uri_to_revid(info[k])};\n'
         else:
diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 8478b55..9f17311 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -157,8 +157,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..f43210c 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -154,7 +154,7 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     if uopts := {*olist} - topts:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
-    for o in topts:
+    for o in olist:
         k, v, _ = TYPE_OPTIONS[ord(o[0])]
         opts[k] = v(o[1:])
     return opts
-- 
2.43.0


From 5a8595b19661ce6dd303c2c4cd2492e14f121b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 22/72] fix: unfolding keeps the type options of a repeated
 field

---
 distribution/src/jadn/transform/transform.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..1615791 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -76,6 +76,13 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    # Options of the repeated item need a type of their own
+                    if itemopts := [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto if o != 'unique']:
+                        itemtype = 'Enumerated' if epx(itemopts) is not None else fdef.FieldType
+                        itemname = epname(itemopts, sys) or f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item'
+                        if itemname not in [t.TypeName for t in schema['types']]:
+                            schema['types'].append(TypeDefinition(itemname, itemtype, itemopts, fdef.FieldDesc))
+                        fdef.FieldType = itemname
                     newopts = {
                         'vtype': fdef.FieldType,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
-- 
2.43.0


From bec9ce83c633bfa43cef2bf76bba59fc7a03df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 23/72] fix: derived enumerations with and without the id
 option are different types

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 1615791..0b0656d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From 59c921b103cbd7e6d809dc4ff17454bf556bf68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 24/72] fix: define a derived enumeration once however often it
 is used

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 0b0656d..5ecaf18 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -130,6 +130,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums[name] = name
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From e2e8a4fec6d9773d1de906f3ed8c0a9cad153deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 25/72] fix: pointers into nested directories have the whole
 path

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 5ecaf18..0332dd3 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -147,7 +147,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From d551f5aaf08c97e7f89d9d5f2d336213419e25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 26/72] fix: the keys of a MapOf may be of a built-in type

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 0332dd3..7b44463 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -178,7 +178,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From 85bf81f7b931a0067dc92b76e50519d0d2233163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 27/72] fix: a Map in place of MapOf(Enumerated) keeps the size
 limits

---
 distribution/src/jadn/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 7b44463..bbfe23d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -180,7 +180,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
         to = topts_s2d(tdef.TypeOptions)
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
-            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
+            newopts = [o for o in tdef.TypeOptions if o[:1] not in (OPTION_ID['ktype'], OPTION_ID['vtype'])]
+            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', newopts, tdef.TypeDesc, newfields)
 
 
 def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Remove schema extensions
-- 
2.43.0


From 23b911dfcfda37ef04a8fdbba8092edf050fb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 28/72] fix: a Map in place of MapOf(Enumerated.ID) has IDs as
 keys

---
 distribution/src/jadn/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index bbfe23d..b6677f8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,7 +2,7 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
@@ -181,6 +181,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             newopts = [o for o in tdef.TypeOptions if o[:1] not in (OPTION_ID['ktype'], OPTION_ID['vtype'])]
+            if get_optx(schema['types'][typex[to['ktype']]][TypeOptions], 'id') is not None:    # Keys are item IDs
+                newopts.insert(0, OPTION_ID['id'])
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', newopts, tdef.TypeDesc, newfields)
 
 
-- 
2.43.0


From 078304f3bbea11201e8f7caabf1e034de97102ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 29/72] fix: a MapOf whose key is still a derived enumeration
 does not become an empty Map

---
 distribution/src/jadn/transform/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index b6677f8..b57ba59 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -179,6 +179,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+            if epx(schema['types'][typex[to['ktype']]][TypeOptions]) is not None:
+                continue            # Items are not known until the derived enumeration is unfolded
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             newopts = [o for o in tdef.TypeOptions if o[:1] not in (OPTION_ID['ktype'], OPTION_ID['vtype'])]
             if get_optx(schema['types'][typex[to['ktype']]][TypeOptions], 'id') is not None:    # Keys are item IDs
-- 
2.43.0


From da1c4e1f32738c387d52117000c2f295500e3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 30/72] fix: canonical Number bounds written with an exponent
 or trailing zeros

---
 distribution/src/jadn/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index f43210c..355edad 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,13 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
+        if basetype == 'Number':
             minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
+            if minf is not None:
+                olist[minf] = f"{OPTION_ID['minf']}{to['minf']}"
             maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+            if maxf is not None:
+                olist[maxf] = f"{OPTION_ID['maxf']}{to['maxf']}"
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From c8d00bde41ee2327ce7abbf455f2e3693f46a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 31/72] fix: dumps() writes null and quotes in names as JSON

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 9f17311..f0f9ca5 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -186,7 +186,7 @@ def load_any(fp: TextIO) -> dict:
 
 
 def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) -> str:
-    if isinstance(val, (numbers.Number, type(''))):
+    if val is None or isinstance(val, (numbers.Number, type(''))):
         return json.dumps(val, ensure_ascii=False)
 
     sp = level * indent * ' '
@@ -194,7 +194,7 @@ def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) ->
     sep2 = ',\n' if strip else ',\n\n'
     if isinstance(val, dict):
         sep = ',\n' if level > 0 else sep2
-        lines = sep.join(f'{sp2}"{k}": {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
+        lines = sep.join(f'{sp2}{json.dumps(k, ensure_ascii=False)}: {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
         return f'{{\n{lines}\n{sp}}}'
     if isinstance(val, list):
         sep = ',\n' if level > 1 else sep2
-- 
2.43.0


From 2a6eebdcbdb95756b0b682317cb4b3dc738e7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 32/72] fix: build_deps() names the type a derived key or value
 enumeration refers to

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 355edad..a751388 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -98,7 +98,7 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
         oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]
         # Options that enumerate fields: keep option id
         oids2 = [OPTION_ID['enum'], OPTION_ID['pointer']]
-        refs = [to[1:] for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
+        refs = [to[1:].lstrip(''.join(oids2)) for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
         refs += ([to[1:] for to in tdef[TypeOptions] if to[0] in oids2])
         if has_fields(tdef[BaseType]):  # Ignore Enumerated
             for f in tdef[Fields]:
-- 
2.43.0


From c40fee96d49c7da66176b6dde8fe9302184b7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 33/72] fix: typestr2jadn() does not read options out of a
 String pattern

---
 distribution/src/jadn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index a751388..41514b1 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -293,6 +293,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_rangepat, '', rest)     # The text of a pattern is not an option
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
-- 
2.43.0


From fedb7b1456a607b755b2aeb7acdbc467d5a1aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 34/72] fix: JIDL loader keeps descriptions that contain a
 quoted string

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index ef4b9a4..730f6b9 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -91,7 +91,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
+        q = re.match(r'(?:(?! //).)*\{pattern="(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
         s = q.end() if q else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
-- 
2.43.0


From 2ea66c331b11d630673afbb901edb64e61ecb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 35/72] fix: keep the extend option in type strings

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 41514b1..fb3240a 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -259,7 +259,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity, extension point
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -367,6 +367,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 1c00b989659c1ef844bd12957bea90b9b1c104f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 36/72] fix: keep the dir option of fields that have labels
 instead of names

---
 distribution/src/jadn/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index fb3240a..64f156e 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -388,16 +388,18 @@ def id_type(td: list) -> bool:    # True if FieldName is a label in description
 
 def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
     idtype = id_type(tdef)
-    fname = '' if idtype else fdef[FieldName]
-    fdesc = f'{fdef[FieldName]}:: ' if idtype else ''
     is_enum = tdef[BaseType] == 'Enumerated'
+    name = fdef[FieldName]
+    if not is_enum and get_optx(fdef[FieldOptions], 'dir') is not None:
+        name += '/'
+    fname = '' if idtype else name
+    fdesc = f'{name}:: ' if idtype else ''
     fdesc += fdef[ItemDesc if is_enum else FieldDesc]
     ftyperef = ''
     fmult = ''
 
     if not is_enum:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
-        fname += '/' if 'dir' in fo else ''
         tf = ''
         if tagid := fo.get('tagid', None):
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
@@ -418,9 +420,6 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         ftyperef, topts, fopts = typestr2jadn(fstr)
         # Field is one of: enum.id, enum, field.id, field
         fo.update(topts_s2d(topts))                   # Copy type options (if any) into field options (JADN extension)
-        if fname.endswith('/'):
-            fo.update({'dir': True})
-            fname = fname.rstrip('/')
         if m := re.match(r'^(\d+)(?:\.\.(\d+|\*))?$', fmult) if fmult else None:
             groups = m.groups()
             if maxc := groups[1]:
@@ -442,6 +441,9 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
                 fname = m.group(1)
                 fdesc = m.group(2)
+    if ftyperef and fname.endswith('/'):
+        fo.update({'dir': True})
+        fname = fname.rstrip('/')
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
 
-- 
2.43.0


From 5d71d5beacfbb833b87c883e524be7e49717482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 37/72] fix: keep the TagId option that refers to field 0

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 64f156e..cdfee60 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -401,7 +401,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
     if not is_enum:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 7af6931a661535a4e06760a07f5a9058be08ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 38/72] fix: replace TagId names in the last type of a JIDL or
 HTML document

---
 distribution/src/jadn/convert/html.py | 2 ++
 distribution/src/jadn/convert/jidl.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index d1c06ac..cc14d15 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -171,6 +171,8 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 730f6b9..e7612d8 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -139,6 +139,8 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 4ac53c38bb938a7fea65871e1fb7407a03876e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 39/72] fix: JIDL loader keeps types whose names end with
 optional

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index e7612d8..5c9565c 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -20,7 +20,7 @@ p_tstr = r'\s*(.*?)\s*\{?'              # Type definition
 p_id = r'\s*(\d+)'  # Field ID
 p_fname = r'\s+(\S+)' # Field Name
 p_fstr = r'\s*(.*?)'  # Field definition or Enum value
-p_range = r'\s*(?:\[([.*\w]+)\]|(optional))?'  # Multiplicity
+p_range = r'\s*(?:\[([.*\w]+)\]|(?<=\s)(optional))?'  # Multiplicity
 
 
 def jidl_style() -> dict:
-- 
2.43.0


From 20db490abbdc549f5c07675dd353accff2ba851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 40/72] fix: TagId of fields whose type is named Key or Link is
 not a key or link option

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index cdfee60..70ad645 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -414,7 +414,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
     ftyperef = ''
     fo = {}
     if fstr:
-        if m := re.match(r'^(Link|Key)\((.*)\)$', fstr):
+        if m := re.match(r'^(Link|Key)\((?!TagId\[)(.*)\)$', fstr):
             fo = {m.group(1).lower(): True}
             fstr = m.group(2)
         ftyperef, topts, fopts = typestr2jadn(fstr)
-- 
2.43.0


From 9e44ec17a0b44ca7ffa7df234897480c3233308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 41/72] fix: JIDL loader takes the first pattern of a line for
 its pattern

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 5c9565c..d5c89e7 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -91,7 +91,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.match(r'(?:(?! //).)*\{pattern="(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
+        q = re.match(r'(?:(?! //).)*?\{pattern="(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
         s = q.end() if q else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
-- 
2.43.0


From 4aee9d5ba121902c50d5cc123ff9adabd085d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 42/72] fix: load_any() reads HTML schemas

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index f0f9ca5..4e2a0e6 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -178,7 +178,7 @@ def load_any(fp: TextIO) -> dict:
         loader = {
             '.jadn': jadn.load,
             '.jidl': jadn.convert.jidl_load,
-            '.html': jadn.convert.html_load
+            '.html': lambda f: jadn.convert.html_loads(f.read())
         }[ext]
     except KeyError:
         raise KeyError(f'Unsupported schema format: {name}')
-- 
2.43.0


From 3e4005a682eafd68400a2ecaeb22f2395e02cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 43/72] fix: fluff() merges hierarchical keys that share a
 prefix

---
 distribution/src/jadn/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 70ad645..43bae6f 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,11 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    def merge(d1: dict, d2: dict) -> dict:
+        both = {k: merge(d1[k], v) for k, v in d2.items() if isinstance(v, dict) and isinstance(d1.get(k), dict)}
+        return dmerge(d1, d2, both)
+
+    return reduce(merge, [hdict(k, v, sep) for k, v in src.items()], {})
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
-- 
2.43.0


From 99ab128a2f70e1b81d55db0a6e6ae8d2707c124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 44/72] fix: flatten() uses the given separator at every level

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 43bae6f..5038416 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -65,10 +65,10 @@ def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
     if isinstance(cmd, dict):
         for k, v in cmd.items():
             k = k.split(':')[1] if ':' in k else k
-            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd)
+            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd, sep)
     elif isinstance(cmd, list):
         for n, v in enumerate(cmd):
-            fcmd.update(flatten(v, sep.join([path, str(n)])))
+            fcmd.update(flatten(v, sep.join([path, str(n)]), sep=sep))
     else:
         fcmd[path] = cmd
     return fcmd
-- 
2.43.0


From d421b4378c4712d8339fa6b7de298774171a3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 45/72] fix: dlist() leaves empty dicts as they are

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 5038416..342a81e 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -84,7 +84,7 @@ def dlist(src: dict) -> dict:
     if isinstance(src, dict):
         for k in src:
             src[k] = dlist(src[k])
-        if set(src) == {str(k) for k in range(len(src))}:
+        if src and set(src) == {str(k) for k in range(len(src))}:
             src = [src[str(k)] for k in range(len(src))]
     return src
 
-- 
2.43.0


From 8511724c000dce414eaa797033246f1104cbc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 46/72] fix: JSON Schema of Integers with a size format has its
 range

---
 distribution/src/jadn/translate/jsonschema_w.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0725391..fdb9801 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -203,10 +203,13 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    fmt = JADN_FMT.get(topts.get('format', ''), {})
+    minv = [v for v in (topts.get('minv'), fmt.get('minimum')) if v is not None]
+    maxv = [v for v in (topts.get('maxv'), fmt.get('maximum')) if v is not None]
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        {'minimum': max(minv)} if minv else {},
+        {'maximum': min(maxv)} if maxv else {}
     )
 
 
-- 
2.43.0


From a79863aa66e8e3d5dc02e6e4debac957f0663595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 47/72] fix: JSON Schema of sets has unique items

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index fdb9801..6ce5507 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -277,7 +277,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
-- 
2.43.0


From 59ec0534135ae3a011d7c32a0299035b6a0ff5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 48/72] fix: JSON Schema of combined Choices keeps the options
 of each alternative

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6ce5507..2d43f52 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -248,7 +248,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 79aea66854eeee2de3505a46b2d6a68701b66949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 49/72] fix: JSON Schema derived enumerations list the items
 that unfolding gives

---
 distribution/src/jadn/transform/transform.py    | 16 +++++++++-------
 distribution/src/jadn/translate/jsonschema_w.py | 10 +++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index b57ba59..41725df 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,7 +2,7 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldType, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
@@ -218,15 +218,17 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
 
 
 def get_enum_items(tdef: list, topts: dict, types: dict) -> list:
-    def ptr(fdef: list):
-        if OPTION_ID['dir'] in fdef[FieldOptions]:
-            return f'{fdef[FieldName]}^'
-        return fdef[FieldName]
+    def pointers(rtype: str, base: str = '') -> Generator[list, None, None]:
+        for fdef in types[rtype][Fields] if has_fields(types[rtype][BaseType]) else []:
+            if OPTION_ID['dir'] not in fdef[FieldOptions]:
+                yield [base + fdef[FieldName], fdef[FieldDesc]]
+            elif fdef[FieldType] in types:
+                yield from pointers(fdef[FieldType], f'{base}{fdef[FieldName]}/')
 
     if 'enum' in topts:
-        return types[topts['enum']][Fields]
+        return [[f[ItemID], f[ItemValue], f[-1]] for f in types[topts['enum']][Fields]]
     if 'pointer' in topts:
-        return [(n, ptr(f), '') for n, f in enumerate(types[topts['pointer']][Fields])]
+        return [[n, *item] for n, item in enumerate(pointers(topts['pointer']), 1)]
     return tdef[Fields]
 
 
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 2d43f52..19d6231 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -104,11 +104,8 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     if stype in stypes:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tdef = ctx['type_defs'][stype[1:]]
-        topts = topts_s2d(tdef[TypeOptions])
-        fields = get_enum_items(tdef, topts, ctx['type_defs'])
-        idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
+        fields = get_enum_items([], topts_s2d([stype]), ctx['type_defs'])
+        return w_enum(fields, ItemValue, ItemDesc, False, ctx)
     return {'$ref': f'#/definitions/{stype}'}
 
 
@@ -238,10 +235,9 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
-        w_enum(fields, item, dcol, 'id' in topts, ctx)
+        w_enum(fields, item, ItemDesc, 'id' in topts, ctx)
     )
 
 
-- 
2.43.0


From d0cd9a9a2b31ec7f1cb9c3baa1cff2a3a2730b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 50/72] fix: JSON Schema element and key types may be any type

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 19d6231..c40d580 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -106,7 +106,9 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
         fields = get_enum_items([], topts_s2d([stype]), ctx['type_defs'])
         return w_enum(fields, ItemValue, ItemDesc, False, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+    if is_builtin(stype):
+        return w_type(['', stype, [], ''], {}, ctx)
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
-- 
2.43.0


From 2687cb413fbd30e5b3106099402e4fefc41d30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 51/72] fix: JSON Schema patterns of enumerations match exactly
 the items

---
 distribution/src/jadn/translate/jsonschema_w.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c40d580..7ed8d79 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -75,7 +75,10 @@ def pattern(vals: list) -> str:
     Return a regex string from a list of values
     """
 
-    return f"^({'|'.join(map(str, vals))})$"
+    def literal(val: str) -> str:
+        return re.sub(r'([\\^$.|?*+()\[\]{}/])', r'\\\1', val)
+
+    return f"^({'|'.join(literal(str(v)) for v in vals)})$"
 
 
 # === Return JSON Schema keywords
@@ -121,7 +124,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
+    if es == 'regex' and not idopt:
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
         return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
-- 
2.43.0


From f337dbc9be5e988f308ece370b057267dcac9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 52/72] fix: JSON Schema properties of types with the id option
 are named by id

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 7ed8d79..d38762e 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -82,6 +82,13 @@ def pattern(vals: list) -> str:
 
 
 # === Return JSON Schema keywords
+def w_key(f: list, topts: dict) -> str:
+    """
+    Make property name of a field
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_td(tname: str, desc: str) -> dict:
     """
     Make type and type description
@@ -257,7 +264,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -290,14 +297,14 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
         fo = ftopts_s2d(f[FieldOptions])[0]
         return fo['minc'] >= 1 if 'minc' in fo else True
 
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [w_key(f, topts) for f in tdef[Fields] if req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From 806b22a224bc1a1a2b41c91b37a8f918525673f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 53/72] fix: JSON Schema of MapOf is an object from keys to
 values

---
 .../src/jadn/translate/jsonschema_w.py        | 75 ++++++-------------
 1 file changed, 21 insertions(+), 54 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index d38762e..628ef8e 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -46,14 +46,11 @@ def get_items(stype: str, ctx: dict) -> Optional[list]:  # pylint: disable=R1710
     return enumerated items if stype is Enumerated
     """
     td = ctx['type_defs']
-    et = stype[1:] if stype[0] == OPTION_ID['enum'] else stype
-    if et in td and td[et][BaseType] == 'Enumerated':
-        to = topts_s2d(td[et][TypeOptions])
-        et = to['enum'] if 'enum' in to else et
-
-    to = topts_s2d(td[et][TypeOptions])
-    if et in td and td[et][BaseType] in ('Enumerated', 'Array', 'Choice', 'Map', 'Record') and 'id' not in to:
-        return [f[ItemValue] for f in td[et][Fields]]
+    if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
+        return [f[ItemValue] for f in get_enum_items([], topts_s2d([stype]), td)]
+    if stype in td and td[stype][BaseType] == 'Enumerated':
+        to = topts_s2d(td[stype][TypeOptions])
+        return [f[ItemID if 'id' in to else ItemValue] for f in get_enum_items(td[stype], to, td)]
 
 
 def spaces(s: str) -> str:
@@ -311,54 +308,24 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
     items = get_items(topts['ktype'], ctx)
     vtype = w_kvtype(topts['vtype'], ctx)
-    ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
-            w_td('object', tdef[TypeDesc]),
-            {'additionalProperties': False},
-            {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
+    if items is None:
+        ktype = topts['ktype']
+        btype = ctx['type_defs'][ktype][BaseType] if ktype in ctx['type_defs'] else ktype
+        props = dmerge(     # Keys are text whatever their type
+            {'propertyNames': w_kvtype(ktype, ctx)} if btype in ('String', 'Binary') else {},
+            {'additionalProperties': vtype}
         )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
+    elif ctx['enum_style'] == 'regex':
+        props = {'additionalProperties': False, 'patternProperties': {pattern(items): vtype}}
     else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
-            }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+        props = {'additionalProperties': False, 'properties': {str(i): vtype for i in items}}
+
+    return dmerge(
+        w_td('object', tdef[TypeDesc]),
+        {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
+        props
+    )
 
 
 # Type Map Util
-- 
2.43.0


From 929936e6518c81bc2426c8ee602be8c0172d3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 54/72] fix: JSON Schema takes configured patterns from the
 configuration

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 628ef8e..b3ee4ef 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -237,7 +237,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
         w_format(topts['format']) if 'format' in topts else {},
         {'minLength': topts['minv']} if 'minv' in topts and topts['minv'] != 0 else {},
         {'maxLength': topts['maxv']} if 'maxv' in topts else {},
-        {'pattern': topts['pattern']} if 'pattern' in topts else {}
+        {'pattern': ctx['config'].get(topts['pattern'], topts['pattern'])} if 'pattern' in topts else {}
     )
 
 
-- 
2.43.0


From f17d01099b1da192897656387ec7539cf9d80ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 55/72] fix: JSON Schema refers to the namespaces of imported
 types

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index b3ee4ef..a318e87 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -388,7 +388,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
         'enum_style': enum_style,
         'imported_types': imported_types,
         'import_style': import_style,
-        'info_imps': info['imports'] if 'imports' in info else None
+        'info_imps': dict(ns) if ns else None
     }
 
     def tt(tdef: list, ctx: dict):  # Return type definition with title
-- 
2.43.0


From 5d961207a66c02af6174a02c7622b6cf39a5437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 56/72] fix: Markdown escapes the column separator in table
 cells

---
 distribution/src/jadn/convert/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index b63df9e..31de837 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -84,6 +84,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
+    rows = [[data.replace('|', '\\|') for data in row] for row in rows]    # Column separators must be escaped
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From c47f43ad2a2d4446bc183cfe4922206c4642eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 57/72] fix: Markdown tables of combined Choice types have no
 empty name column

---
 distribution/src/jadn/convert/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 31de837..16968d8 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, id_type, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -54,7 +54,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
-- 
2.43.0


From 59d6a3caadfbb407b105698ed04c833cbaef07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 58/72] fix: diagrams show the key types of MapOf fields

---
 distribution/src/jadn/convert/diagram_w.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 5f3aff1..9142ae0 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -113,15 +113,25 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         """
         Return graph edges from fields in selected diagram format
         """
+        # nodes and s are available in caller scope
+        if td[BaseType] == 'Enumerated':
+            return ''
+        fopts, ftopts = ftopts_s2d(fd[FieldOptions])
+        if fd[FieldType] in {'ArrayOf', 'MapOf'}:   # Edges to the key type (if any) and value type
+            refs = [ftopts[k] for k in ('ktype', 'vtype') if k in ftopts]
+        else:
+            refs = [fd[FieldType]]
+        return ''.join([edge_ref(td, fd, fopts, ref) for ref in dict.fromkeys(refs)])
+
+    def edge_ref(td, fd, fopts, fieldtype) -> str:
+        """
+        Return graph edge from a type to a referenced type in selected diagram format
+        """
         # Normalize edge label for diagram format
         def ename(edge_label: str) -> str:
             return edge_label.replace('-', '_')
 
         # nodes and s are available in caller scope
-        if td[BaseType] == 'Enumerated':
-            return ''
-        fopts, ftopts = ftopts_s2d(fd[FieldOptions])
-        fieldtype = ftopts['vtype'] if fd[FieldType] in {'ArrayOf', 'MapOf'} else fd[FieldType]
         if fieldtype in nodes:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
-- 
2.43.0


From 7f58c514f3e8ab04bac6999f22037354c334b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 59/72] fix: diagram style link_horizontal has its effect

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9142ae0..5d9b64d 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -136,7 +136,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
             if s['format'] == 'plantuml':
-                rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
+                rel = ('.' if s['link_horizontal'] else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
-- 
2.43.0


From a8c5b0250af53ebe72cb0fd71621e2ed7af3a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 60/72] fix: diagram style links leaves out link edges

---
 distribution/src/jadn/convert/diagram_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 5d9b64d..bfc753f 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -132,6 +132,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             return edge_label.replace('-', '_')
 
         # nodes and s are available in caller scope
+        if 'link' in fopts and not s['links']:
+            return ''
         if fieldtype in nodes:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
-- 
2.43.0


From 1be6e60e8f424c3c47586bfbfe5e989214911a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 61/72] fix: GraphViz diagrams escape text in labels

---
 distribution/src/jadn/convert/diagram_w.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index bfc753f..61bb4b6 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -6,6 +6,7 @@ style[format] =
 """
 
 import re
+from html import escape
 from datetime import datetime
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
@@ -51,7 +52,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         # nodes and s are available in caller scope
         tn = td[TypeName]
         return {
-            'graphviz': f'n{nodes[tn]} [label=<<b>{tn}{bt}</b>>, '
+            'graphviz': f'n{nodes[tn]} [label=<<b>{tn}{escape(bt)}</b>>, '
                         f'shape=ellipse, style=filled, fillcolor={s["attr_color"]}]\n\n',
             'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n'
         }[s['format']]
@@ -67,7 +68,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         return {
             'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n',
             'graphviz': f'n{nodes[tn]} [{color}label=<<table cellborder="0" cellpadding="1" cellspacing="0">\n'
-                        f'<tr><td cellpadding="4"><b>  {tn}{bt}  </b></td></tr>{hr}\n'
+                        f'<tr><td cellpadding="4"><b>  {tn}{escape(bt)}  </b></td></tr>{hr}\n'
         }[s['format']]
 
     def node_field(td, fd) -> str:
@@ -86,7 +87,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
-            'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
+            'graphviz': f'  <tr><td align="left">  {escape(fval)}  </td></tr>\n'
         }[s['format']]
 
     def node_end() -> str:
@@ -143,7 +144,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
-                edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
+                edge = [f'label="{ename(fd[FieldName])}"'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
-- 
2.43.0


From bd0abc4aaf23846f217c1a821ea69d4af564c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 62/72] fix: diagrams keep multi-line information inside
 comments

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 61bb4b6..6b386cb 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -172,7 +172,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        text += f"{fmt['comment']} {k}: {' '.join(str(v).splitlines())}\n"
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
-- 
2.43.0


From f3a8015eb9fd4fa9cb7466505b068dd92cc4eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 63/72] fix: resolve schemas that refer to types of other
 packages

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..1b1e390 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -49,7 +49,7 @@ class SchemaPackage:
                     self.deps[tn].remove(dn)
                     nsid, typename = dn.split(':', maxsplit=1)
                     try:
-                        self.refs[self.namespaces[nsid]][tn].add(typename)
+                        self.refs[self.namespaces[nsid]][tn].append(typename)
                     except KeyError as e:
                         raise_error(f'Resolve: no namespace defined for {e}')
 
-- 
2.43.0


From f2963979fa5f966d39d9b1d57a984231fab5d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 64/72] fix: resolve does not look for an option JADN does not
 have

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 1b1e390..97d09e6 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -78,7 +78,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
-- 
2.43.0


From 5c50bec801b2df6ee75166c0cc16156f115fd28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 65/72] fix: resolve does not depend on the order of a
 directory listing

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 97d09e6..5a809dc 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -144,7 +144,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     packages = {root.package: root}
     nsids = defaultdict(list)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
-- 
2.43.0


From f40f192ea0fc123355a689b8ec1e38d58332ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 66/72] fix: resolve accepts the JADN 1.1 forms of namespaces
 and roots

---
 distribution/src/jadn/transform/resolve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 5a809dc..e39f0b0 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -33,7 +33,7 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))    # {prefix: ns} or [[prefix, ns], ...]
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
@@ -155,7 +155,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
+    info = root.schema['info']
+    resolve(root, info.get('roots', info.get('exports', set())), packages)
 
     for t in root.used.copy():
         if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From ac4a11714bb6a0bf0bce679546f0bf5eacecbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 67/72] fix: resolve uses the namespace ids of the packages it
 merges

---
 distribution/src/jadn/transform/resolve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index e39f0b0..de58063 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -153,6 +153,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             packages[sm.package].source = fn
         elif packages[sm.package].source != fn:                   # Flag multiple files with same package name
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
+    for sm in packages.values():
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
     info = root.schema['info']
-- 
2.43.0


From 5f5af0aeb784ba10ecce32111e23e9a85fadef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 68/72] fix: resolve keeps the option ids of derived
 enumerations

---
 distribution/src/jadn/transform/resolve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index de58063..3e07ff1 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -80,8 +80,12 @@ def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: d
     # Options whose value is/has a type name
     oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
+    def update_opt(opt: str) -> str:
+        tref = opt.lstrip(''.join(oids))    # Type name follows one id, or two (ktype/vtype of a derived enumeration)
+        return f'{opt[:len(opt) - len(tref)]}{merge_tname(tref, package, namespaces, nsids, sys)}' if tref != opt else opt
+
     def update_opts(opts: list[str]) -> list[str]:
-        return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
+        return [update_opt(x) for x in opts]
 
     td = [
         merge_tname(tdef[TypeName], package, namespaces, nsids, sys),
-- 
2.43.0


From 27c9c7a6588201bc52f949859ca448e39fd29a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 69/72] fix: resolve keeps types of packages imported under the
 same id apart

---
 distribution/src/jadn/transform/resolve.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 3e07ff1..abb10ca 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -76,6 +76,15 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
 
 
+def unique_nsid(nsid: str, namespace: str, nsids: dict) -> str:
+    # Packages can use the same id for different namespaces: number the ones after the first
+    uid, n = nsid, 1
+    while any(uid in ids for ns, ids in nsids.items() if ns != namespace):
+        n += 1
+        uid = f'{nsid}{n}'
+    return uid
+
+
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
     oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
@@ -159,7 +168,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
     for sm in packages.values():
         for i, m in sm.namespaces.items():
-            nsids[m].append('' if i in no_nsid else i)
+            nsids[m].append('' if i in no_nsid else unique_nsid(i, m, nsids))
     info = root.schema['info']
     resolve(root, info.get('roots', info.get('exports', set())), packages)
 
-- 
2.43.0


From e7e2d5efc5687c8c950a871aa7ce0b06d17c99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 70/72] fix: refuse base64url text with data after its padding

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 49379cc..d4e5282 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -80,7 +80,7 @@ def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to b
         v = f"{sval}{'=' * (4-mod)}"
     if set(v) - set(string.ascii_letters + string.digits + '-_='):  # Python 2 doesn't support Validate
         raise TypeError('base64decode: bad character')
-    return base64.b64decode(str(v), altchars=b'-_')
+    return base64.b64decode(str(v), altchars=b'-_', validate=True)
 
 
 def b2s_ipv4_addr(bval: bytes) -> str:      # Convert IPv4 address from binary to string
-- 
2.43.0


From 0a054c2c211d0bffb60eb2c37dbf169c3fbf6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 71/72] fix: refuse serialized date-times without a UTC offset,
 their value depended on the local time zone

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index d4e5282..409c4b3 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -192,6 +192,8 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(_check_text(dts).upper().replace('Z', '+00:00').replace(' ', 'T'))
+    if x.tzinfo is None:
+        raise ValueError(f'{dts} has no UTC offset')
     return round(1000 * datetime.timestamp(x))
 
 
-- 
2.43.0


From 7bb21ec0a3eddbd2d7489b464466c41b3e5e5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 72/72] fix: derive an enumeration from a derived one whatever
 the order of the two types

---
 distribution/src/jadn/transform/transform.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 41725df..07920f7 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -136,6 +136,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
     def enum_items(rtype: str) -> list:
         tdef = schema['types'][typex[rtype]]
         if tdef.BaseType == 'Enumerated':
+            derive(tdef)
             return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]
         fields = tdef.Fields if has_fields(tdef.BaseType) else []
         return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
@@ -153,16 +154,18 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
 
     enums = {}
+
+    def derive(tdef: TypeDefinition) -> NoReturn:
+        to = tdef.TypeOptions
+        if rname := epname(to, sys):
+            opt = to.pop(epx(to))
+            enums.update({rname: tdef.TypeName})
+            items = enum_items if opt[:1] == OPTION_ID['enum'] else pointer_items
+            tdef.Fields = [EnumFieldDefinition(*f) for f in items(opt[1:])]
+
     for tdef in list(schema['types']):  # Replace enum/pointer options in Enumerated types with explicit items
         if tdef.BaseType == 'Enumerated':
-            to = tdef.TypeOptions
-            if rname := epname(to, sys):
-                optx = get_optx(to, 'enum')
-                optx = optx if optx is not None else get_optx(to, 'pointer')
-                items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = items(to[optx][1:])
-                del to[optx]
-                enums.update({rname: tdef.TypeName})
+            derive(tdef)
 
     # Create new Enumerated enum/pointer types if they don't already exist
     for tdef in list(schema['types']):
-- 
2.43.0

