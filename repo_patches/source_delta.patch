From 5e42a45569d9ed67577ebd42ee7c00f6183d4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 01/67] fix: keep the raw data of a form field whose base64
 cannot be decoded

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..1d8ceab 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -189,7 +189,8 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (binascii.Error, TypeError):
+                            #Python 2's b64decode turns binascii.Error into TypeError
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From 59e58dfec80604dbc5acc24f2343b4a079bf66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 02/67] fix: report undecodable base64 file data as
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1d8ceab..495c18c 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -8,7 +8,6 @@ import base64
 import binascii
 import cgi
 
-from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
@@ -269,7 +268,7 @@ class MultiPartParser:
                                     chunk = base64.b64decode(stripped_chunk)
                                 except Exception as exc:
                                     # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                    raise MultiPartParserError("Could not decode base64 data: %s" % exc)
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
-- 
2.43.0


From 54eab30f0f9fb1dfcf50ea9e0a6bcca98c625d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 03/67] fix: do not loop forever on base64 file data that is
 not a multiple of 4 long

---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 495c18c..e07efe3 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -261,6 +261,9 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        #end of the part, nothing left to complete the group with
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 07081fdeed7f734879c4061ab7908a03e020e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 04/67] fix: consume the rest of a skipped multipart part
 instead of parsing it as another part

---
 request_parser/http/multipartparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index e07efe3..dd959ec 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -158,6 +158,8 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    #use up the rest of this part, it must not be read as another part
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -225,6 +227,8 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        #use up the rest of this part, it must not be read as another part
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 9a9bc594b667d62888a9e9360a11dd9d45baac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 05/67] fix: an uploaded file without content is not false, so
 that FILES keeps it

---
 request_parser/files/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..ccbad7c 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -24,6 +24,8 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    __nonzero__ = __bool__ # Python 2
+
     def __len__(self):
         return int(self.size)
 
-- 
2.43.0


From 0963925ca5c513b5753c56f166a403b56dbbe1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 06/67] fix: a multipart Content-Type without a boundary is a
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index dd959ec..d117586 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -63,7 +63,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From b00b7d13d3f8990df88cb4a4665abdd4e1a754df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 07/67] fix: use a boundary given as an extended parameter as
 bytes

---
 request_parser/http/multipartparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index d117586..dceb735 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -76,8 +76,8 @@ class MultiPartParser:
             # This means we shouldn't continue...raise an error.
             raise MultiPartParserError("Invalid content length: %r" % content_length)
 
-        if isinstance(boundary, str):
-            boundary = boundary.encode('ascii')
+        #also turns the unicode value of an extended (boundary*=) parameter into bytes
+        boundary = boundary.encode('ascii')
         self._boundary = boundary
         self._input_data = input_data
 
-- 
2.43.0


From 9901a937a9db82ee3100a6cf9bb0bb96c87b3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 08/67] fix: a Content-Type with bytes outside ASCII is a
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index dceb735..076922d 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -60,7 +60,10 @@ class MultiPartParser:
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-        content_types, opts = parse_header(content_type.encode('ascii'))
+        try:
+            content_types, opts = parse_header(content_type.encode('ascii'))
+        except UnicodeError:
+            raise MultiPartParserError('Invalid Content-Type: %r' % content_type)
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
             raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
-- 
2.43.0


From a44eb8dee31990e5b596211914755b574f8cc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 09/67] fix: keep an extended header parameter in an unknown
 charset as it was sent

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 076922d..0a7b531 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -602,7 +602,11 @@ def parse_header(line):
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode())
+                except LookupError:
+                    #unknown charset, keep the value as it was sent
+                    pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
-- 
2.43.0


From dfe79da7f55f159c2df588e43cb8c5d1c6e6ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 10/67] fix: force_str encodes unicode text in the given
 encoding

---
 request_parser/utils/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..1c7e006 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -47,8 +47,8 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     if strings_only and is_protected_type(s):
         return s
     try:
-        if isinstance(s, bytes):
-            s = str(s, encoding, errors)
+        if isinstance(s, unicode):
+            s = s.encode(encoding, errors)
         else:
             s = str(s)
     except UnicodeDecodeError as e:
-- 
2.43.0


From 9c73c3a7d0e0f43b72ed400986dfee32e5382b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 11/67] fix: do not parse multipart preamble and epilogue as
 parts

---
 request_parser/http/multipartparser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 0a7b531..1b7a08a 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -568,7 +568,19 @@ class Parser:
         #for each sub-stream within boundaries, yield the parsed content
         #note that many sub-streams (usually) form a boundaryStream
         #And a boundaryStream is the stream of bytes between boundaries
+        preamble = True
         for sub_stream in boundarystream:
+            #what precedes the first delimiter is not a part
+            if preamble:
+                preamble = False
+                yield (RAW, {}, sub_stream)
+                continue
+            #neither is what follows the closing delimiter
+            closing = sub_stream.read(2)
+            sub_stream.unget(closing)
+            if closing == b'--':
+                yield (RAW, {}, self._stream)
+                return
             # Iterate over each part
             #to return item_type, meta_data, field_stream
             yield parse_boundary_stream(sub_stream, 1024)
-- 
2.43.0


From 0ee812439b441f268d70dcc3c5c44504f066abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 12/67] fix: an escaped quote in a quoted header parameter does
 not end it

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1b7a08a..be085cb 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -645,7 +645,8 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        #an escaped " does not end or begin a quoted value
+        while end > 0 and s[:end].replace(b'\\\\', b'').replace(b'\\"', b'').count(b'"') % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From bed27505915adf65cea3ad5c8cd045011dfee94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 13/67] fix: keep a header parameter that is not in valid
 extended form as it was sent

---
 request_parser/http/multipartparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index be085cb..78f3257 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -608,7 +608,7 @@ def parse_header(line):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if p.count(b"'", i + 1) == 2:
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
@@ -616,8 +616,8 @@ def parse_header(line):
                 #will come back to bite us. Investigate -> DONE
                 try:
                     value = unquote(value.decode(), encoding=encoding.decode())
-                except LookupError:
-                    #unknown charset, keep the value as it was sent
+                except (LookupError, UnicodeError):
+                    #unknown charset or not percent-encoded, keep the value as it was sent
                     pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
-- 
2.43.0


From d63707b5bf96b27fbac8c983d17dfd1033d16e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 14/67] fix: quotes in a decoded extended header parameter
 belong to its value

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 78f3257..1d990c8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -619,7 +619,7 @@ def parse_header(line):
                 except (LookupError, UnicodeError):
                     #unknown charset or not percent-encoded, keep the value as it was sent
                     pass
-            if len(value) >= 2 and value[:1] == value[-1:] == b'"':
+            elif len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
             pdict[name] = value
-- 
2.43.0


From e72793776a3746b41021b0ef201d9102da12bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 15/67] fix: complete an uploaded file whose field name is
 empty

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1d990c8..cf1a390 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -150,7 +150,7 @@ class MultiPartParser:
 
         try:
             for item_type, meta_data, field_stream in Parser(stream, self._boundary):
-                if old_field_name:
+                if old_field_name is not None:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
-- 
2.43.0


From 640497674ef8ee34d8895c8190bb31718323eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 16/67] fix: without DATA_UPLOAD_MAX_MEMORY_SIZE a request body
 has no size limit

---
 request_parser/http/request.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..21a5688 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -375,10 +375,14 @@ class HttpRequest(object,):
             read_size = 0
             chunk = ''
             _body = ''
+            #None means no limit
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
+            if max_size is None:
+                max_size = float('inf')
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+                while read_size <= max_size and\
                         chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
@@ -386,7 +390,7 @@ class HttpRequest(object,):
             except IOError as e:
                 raise_(UnreadablePostError(*e.args), e)
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From 0bc5b673c773c964c483bd6194e64f38536b0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 17/67] fix: do not close completed upload files when a later
 file is skipped or aborted

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index cf1a390..930e1ba 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -133,6 +133,8 @@ class MultiPartParser:
         # Create the data structures to be used later.
         self._post = QueryDict(self.settings, mutable=True)
         self._files = MultiValueDict()
+        # The files of handlers that are part of a completed upload.
+        self._completed_files = []
 
         # Instantiate the stream:
         stream = LazyStream(ChunkIter(self._input_data, self._chunk_size))
@@ -334,6 +336,7 @@ class MultiPartParser:
             if file_obj:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
+                self._completed_files.append(getattr(handler, 'file', None))
                 break
 
     #What the hell is this for?
@@ -345,8 +348,9 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        # A file of a completed upload belongs to self._files and stays open.
         for handler in self._upload_handlers:
-            if hasattr(handler, 'file'):
+            if hasattr(handler, 'file') and not any(handler.file is f for f in self._completed_files):
                 handler.file.close()
 
 class InterBoundaryIter:
-- 
2.43.0


From 91acfd147d24f6951d8554ce14b1186ea9fa9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 18/67] fix: create the upload directory before the first
 temporary file

---
 request_parser/files/uploadedfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..6d159b1 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -59,6 +59,9 @@ class TemporaryUploadedFile(UploadedFile, object):
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
+        # The directory of the default settings does not exist before the first file.
+        if not os.path.isdir(_settings.FILE_UPLOAD_TEMP_DIR):
+            os.makedirs(_settings.FILE_UPLOAD_TEMP_DIR)
         file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
-- 
2.43.0


From d20e44b21999941a17acd3fe7fd111d6ac84432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 19/67] fix: an uploaded file's extension cannot keep its
 temporary file from being created

---
 request_parser/files/uploadedfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6d159b1..638d983 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -56,6 +56,8 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        # The extension must not make the name of the temporary file unusable.
+        ext = ''.join([c for c in ext if ' ' <= c <= '~'])[:64]
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-- 
2.43.0


From 66e93ab448d3ec8cb2c324dd5599373dbfdfd9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 20/67] fix: a failing read of the request raises
 UnreadablePostError

---
 request_parser/http/request.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 21a5688..0135f9c 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,8 +16,6 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
-from six import reraise as raise_
-
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
 host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
@@ -388,7 +386,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise UnreadablePostError(*e.args)
             
             if read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -574,14 +572,14 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
             #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def __iter__(self):
         return iter(self.readline, b'')
-- 
2.43.0


From cff4519d7c65bf0a0944c2bc6117ee4f7df16a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 21/67] fix: keep bytes outside ASCII in request headers as
 they were sent

---
 request_parser/http/request.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0135f9c..7ba9411 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -830,10 +830,8 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From f02ae32dff23a7c7560da4748e22bad1be01e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 22/67] fix: a request URI that cannot be parsed is an
 InvalidHttpRequest

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 7ba9411..f5fa472 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -864,7 +864,11 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        #invalid IPv6 address or bytes outside of ASCII
+        raise InvalidHttpRequest("Invalid request URI: {!r}".format(uri), 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From a76e86c2562f5638aab2e3253e6263540e6f6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 23/67] fix: a host followed by a line feed is not a valid host

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f5fa472..29caff1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -18,7 +18,7 @@ from constants import MetaDict
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From 81d845222078a4600c9705922d3314e46624616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 24/67] fix: find Host, Content-Type and Content-Length headers
 sent in another case

---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 29caff1..54e6a87 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -798,6 +798,9 @@ def split_domain_port(host):
     domain = domain[:-1] if domain.endswith('.') else domain
     return domain, port
 
+#the headers this parser needs itself, their names may be sent in any case
+_own_headers = {'host': 'Host', 'content-type': 'Content-Type', 'content-length': 'Content-Length'}
+
 def parse_request_headers(request_header_stream):
     """
     Parse the request header's individual headers into key, value-list
@@ -830,6 +833,7 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
+            header = _own_headers.get(header.lower(), header)
             value = request_header[end_index+1:]
             value = value.strip()
             if header in request_headers:
-- 
2.43.0


From 9fd4afab9ed54f1bda42b414511bde88a24d7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 25/67] fix: a request header that could not be parsed does not
 count as parsed

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 54e6a87..658c834 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -416,8 +416,7 @@ class HttpRequest(object,):
         #read until we find a '\r\n\r\n' sequence
         request_header_end = -1
         while request_header_end == -1:
-            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
-            self._request_header_parsed = True
+            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)
             if not chunk:
                 break
             
@@ -489,6 +488,7 @@ class HttpRequest(object,):
         self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
+        self._request_header_parsed = True
 
     def _mark_post_parse_error(self):
         self._post = QueryDict(self.settings)
-- 
2.43.0


From fe70d4b9284ddfcb2e5dc7254ec69e15715e1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 26/67] fix: QueryDict uses the encoding it is given

---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 930e1ba..88a4831 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -131,7 +131,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=encoding)
         self._files = MultiValueDict()
         # The files of handlers that are part of a completed upload.
         self._completed_files = []
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 658c834..934f511 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -621,7 +621,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From 81bad071522be133e7b9216db74e0d3e3a5b596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 27/67] fix: the encoding of a request is its own, changing it
 keeps GET

---
 request_parser/http/request.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 934f511..839f09d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -89,6 +89,8 @@ class HttpRequest(object,):
         
         self.GET = QueryDict(self.settings, mutable=True)
         self.META = {}
+        #encoding of this request if it's not the one in settings
+        self._encoding = None
 
         #represents a set of properties of an HTTP request
         #that are essential for quick info gathering
@@ -186,7 +188,7 @@ class HttpRequest(object,):
 
     @property
     def encoding(self):
-        return self.settings.DEFAULT_CHARSET
+        return self._encoding or self.settings.DEFAULT_CHARSET
 
     @encoding.setter
     def encoding(self, val):
@@ -198,13 +200,10 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
-        self.settings.DEFAULT_CHARSET = val
-        if hasattr(self, 'GET'):
-            del self.GET
-        if hasattr(self, '_post'):
-            del self._post
-        if hasattr(self, '_body'):
-            del self._body
+        #the settings may be shared with other requests, the encoding is not
+        self._encoding = val
+        if self.META.get(MetaDict.Info.QUERY_STRING):
+            self.GET = QueryDict(self.settings, self.META[MetaDict.Info.QUERY_STRING], encoding=val)
     
     @property
     def stream(self):
@@ -485,7 +484,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
         self._request_header_parsed = True
-- 
2.43.0


From a7a4e12cad265dbf6b4cecb964973338bf74e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 28/67] fix: an unusable charset in Content-Type is an
 InvalidHttpRequest

---
 request_parser/http/request.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 839f09d..d354363 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,6 +16,8 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
+from six import text_type
+
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
 host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
@@ -480,6 +482,8 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
+                    if value and not is_text_encoding(value):
+                        raise InvalidHttpRequest("Unknown charset in Content-Type: {!r}".format(value), 400)
                     self.encoding = value
                     break
 
@@ -776,6 +780,15 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def is_text_encoding(name):
+    """
+    Return True if name is the name of an encoding that bytes can be decoded with to text.
+    """
+    try:
+        return isinstance(b'a'.decode(name, 'replace'), text_type)
+    except Exception:
+        return False
+
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
-- 
2.43.0


From 50d9d5aea3172961a74520543572c6681362ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 29/67] fix: a body with bytes that are invalid in the charset
 of the request can be parsed

---
 request_parser/http/request.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index d354363..a8d22e7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -396,6 +396,9 @@ class HttpRequest(object,):
         elif not self._request_header_parsed:
             self.parse_request_header()
             return self.body()
+        #once parsed, the body is text in the encoding of the request
+        if self._request_body_parsed:
+            return self._body.decode(self.encoding, 'replace')
         return self._body
 
     def parse_request_header(self):
@@ -546,12 +549,9 @@ class HttpRequest(object,):
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
-        #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
-        else:
-            self._body = self.body().decode(self.encoding)
+        #read the body, except that of a form which the parser has taken from the stream
+        if self.content_type != 'multipart/form-data':
+            self.body()
         
         self._request_body_parsed = True
         self.POST = self._post
-- 
2.43.0


From 03b0e0db97a741d71b4f88ae9ab020a15eedf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 30/67] fix: a new stream drops the body, POST and FILES of the
 previous one

---
 request_parser/http/request.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index a8d22e7..00d2e3f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -222,20 +222,15 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
-        possible.
+        The body of the previous stream with its POST and FILES is dropped, too.
         """
-        self._stream = val
-        #create a LazyStream out of the _stream
-        if self._stream is None:
-            self._stream = BytesIO()
-        self._stream = LazyStream(self._stream)
+        #reset everything that belongs to the body
+        self.body_stream = val
 
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
         self._request_header_parsed = False
-        self._request_body_parsed = False
     
     @property
     def body_stream(self):
@@ -265,6 +260,10 @@ class HttpRequest(object,):
             del self.FILES
         if hasattr(self, '_body'):
             del self._body
+        if hasattr(self, '_post'):
+            del self._post
+        if hasattr(self, '_files'):
+            del self._files
         
         #re-init POST and FILES
         self.POST = QueryDict(self.settings, mutable=True)
@@ -276,8 +275,7 @@ class HttpRequest(object,):
     def _reset_header_meta_data(self):
         """
         Remove the listed below META data for a parser instance.
-        Note that the POST, FILES and _body are exempt because they're context
-        dependant.
+        Note that the POST, FILES and _body are exempt, they belong to the body.
 
         Called by stream.setter to reset parser status.
         """
-- 
2.43.0


From 0ebfbf774e4709908fecb02d5cc2cc44cde4a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 31/67] fix: stream and body_stream return the stream

---
 request_parser/http/request.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 00d2e3f..ad78b75 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -209,9 +209,7 @@ class HttpRequest(object,):
     
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @stream.setter
     def stream(self, val):
@@ -234,9 +232,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @body_stream.setter
     def body_stream(self, val):
-- 
2.43.0


From 2cf1eb2c293e649ca5481e9223bcd6ca04b47530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 32/67] fix: upload handlers set on a request are used

---
 request_parser/http/request.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index ad78b75..04f1719 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -81,6 +81,8 @@ class HttpRequest(object,):
         #               }
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
+        self._upload_handlers = []
+        self._upload_handlers_used = False
 
         self._re_init()
 
@@ -261,6 +263,11 @@ class HttpRequest(object,):
         if hasattr(self, '_files'):
             del self._files
         
+        #upload handlers that have handled a body are not used for another one
+        if self._upload_handlers_used:
+            self._upload_handlers = []
+            self._upload_handlers_used = False
+
         #re-init POST and FILES
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
@@ -345,6 +352,7 @@ class HttpRequest(object,):
     def _parse_file_upload(self, META, post_data):
         """Return a tuple of (POST QueryDict, FILES MultiValueDict)."""
         parser = MultiPartParser(META, post_data, self.upload_handlers, self.settings ,self.encoding)        
+        self._upload_handlers_used = True
         return parser.parse()
     
     def body(self):
@@ -503,9 +511,6 @@ class HttpRequest(object,):
         if self._request_body_parsed:
             return
         
-        #initialize the upload_hanldlers
-        self._initialize_handlers()
-
         #if header not parsed already
         #if parse_request_body is called, then it means
         #that we're retaining the request header data but
-- 
2.43.0


From 7ebe1c741550297a31496d7d5c1558903a8c3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 33/67] fix: POST and FILES of a request without a body are
 empty

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 04f1719..42e831f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -526,6 +526,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From 2f3ebd85170c993ff249cb7b3dcf6bf115363270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 34/67] fix: the path of a request includes its parameters

---
 request_parser/http/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 42e831f..e09d0ff 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -13,7 +13,7 @@ from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
 from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
-from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
+from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse, _urlsplit as urlsplit
 from constants import MetaDict
 
 from six import text_type
@@ -479,7 +479,8 @@ class HttpRequest(object,):
         self.port = port
 
         self.method = meta_dict[MetaDict.ReqLine.METHOD]
-        self.path = meta_dict[MetaDict.ReqLine.PATH]
+        #the path includes its parameters
+        self.path = urlsplit(request_line.split(' ')[1])[2]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
         self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
-- 
2.43.0


From 8a7a260b5a425e0e7847888b5ec3006ec0d946a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 35/67] fix: changing the encoding decodes an urlencoded POST
 again

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e09d0ff..f9b83be 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -198,8 +198,8 @@ class HttpRequest(object,):
     def encoding(self, val):
         """
         Set the encoding used for GET/POST accesses. If the GET or POST
-        dictionary has already been created, remove and recreate it on the
-        next access (so that it is decoded correctly).
+        dictionary has already been created, recreate it (so that it is
+        decoded correctly).
         """
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
@@ -208,6 +208,8 @@ class HttpRequest(object,):
         self._encoding = val
         if self.META.get(MetaDict.Info.QUERY_STRING):
             self.GET = QueryDict(self.settings, self.META[MetaDict.Info.QUERY_STRING], encoding=val)
+        if self._request_body_parsed and self.content_type == 'application/x-www-form-urlencoded':
+            self.POST = self._post = QueryDict(self.settings, self._body, encoding=val)
     
     @property
     def stream(self):
-- 
2.43.0


From 0836e851b714ac962ed85316bf0a4031badf58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 36/67] fix: a request can be read line by line

---
 request_parser/utils/datastructures.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..ab21ad9 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -394,6 +394,26 @@ class LazyStream:
         out = b''.join(parts())
         return out
 
+    def readline(self, size=None):
+        """
+        Read up to and including the next line feed, at most size bytes.
+        """
+        line = []
+        while size is None or size < 0 or size > 0:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1 or len(chunk)
+            if size is not None and size >= 0:
+                end = min(end, size)
+                size -= end
+            self.unget(chunk[end:])
+            line.append(chunk[:end])
+            if line[-1].endswith(b'\n'):
+                break
+        return b''.join(line)
+
     #def __next__(self):
     def next(self):
         """
-- 
2.43.0


From 6061fd94bbf3efc61fd0e6f4425297cf9eda983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 37/67] fix: QueryDict decodes bytes to text, form fields with
 names outside ASCII keep their values

---
 request_parser/http/request.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f9b83be..cf5f290 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -779,8 +779,7 @@ def bytes_to_text(s, encoding):
     Return any non-bytes objects without change.
     """
     if isinstance(s, bytes):
-        #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
-- 
2.43.0


From 39cdd59efe184d31234d460b9a3aafb5993fc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 38/67] fix: QueryDicts can be copied and made from keys

---
 request_parser/http/request.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index cf5f290..6fab184 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -651,12 +651,12 @@ class QueryDict(MultiValueDict):
         self._mutable = mutable
 
     @classmethod
-    def fromkeys(cls, iterable, value='', mutable=False, encoding=None):
+    def fromkeys(cls, iterable, value='', mutable=False, encoding=None, settings=None):
         """
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(settings or Settings.default(), mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -688,13 +688,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From a32a1c699a10a2363dfb33b7c5974c3f318cee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 39/67] fix: QueryDict.urlencode encodes names and values
 outside ASCII

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 6fab184..6749022 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -12,7 +12,7 @@ from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
-from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
+from request_parser.utils.encoding import escape_uri_path, force_str, iri_to_uri, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse, _urlsplit as urlsplit
 from constants import MetaDict
 
@@ -762,7 +762,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(force_str(k, self.encoding), force_str(v, self.encoding))
                 for v in list_
             )
         return '&'.join(output)
-- 
2.43.0


From ba51a36de84788a26396753ae1c48f206d4e6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 40/67] fix: QueryDict.setlistdefault and update keep values
 under names given as bytes

---
 request_parser/http/request.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 6749022..e38974d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -708,6 +708,7 @@ class QueryDict(MultiValueDict):
 
     def setlistdefault(self, key, default_list=None):
         self._assert_mutable()
+        key = bytes_to_text(key, self.encoding)
         return super(QueryDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
-- 
2.43.0


From 7d6a486708172886f8f93c47c33e59ce3dea1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 41/67] fix: the state of a MultiValueDict can be saved and
 restored

---
 request_parser/utils/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index ab21ad9..0e6065d 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -76,7 +76,7 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
@@ -85,7 +85,7 @@ class MultiValueDict(dict):
         #for each (key, value) tuple in data
         for k, v in data.items():
             #create the list with value v for key k
-            self.setlist(k, v)
+            MultiValueDict.setlist(self, k, v)
         #update the attribute dictionary from the returned obj_dict
         #the update automatically iterates through the key, value pair in #obj_dict and populates the attributes; since there's no parameter
         #with '_dict' key, that item is ignored.
-- 
2.43.0


From 451877e987c296a2403e44f2e230f2f279bdd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 42/67] fix: an ImmutableMultiValueDict refuses pop, popitem
 and clear and works when made mutable

---
 request_parser/utils/datastructures.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 0e6065d..a0ae686 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -290,7 +290,7 @@ class ImmutableMultiValueDict(MultiValueDict):
     def __setitem__(self, key, value):
         #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -322,14 +322,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -339,7 +339,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 1fd84322af9bbed1dc8106c9cbce3ebe46babde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 43/67] fix: a closed LazyStream is at its end after the
 leftover bytes

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index a0ae686..1761943 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -450,7 +450,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From c1b71129b0a62fa57edd227a5c065c82cdade815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:57 +0000
Subject: [PATCH 44/67] fix: a request URI that starts with two slashes is a
 path

---
 request_parser/http/request.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e38974d..a90f220 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -482,7 +482,7 @@ class HttpRequest(object,):
 
         self.method = meta_dict[MetaDict.ReqLine.METHOD]
         #the path includes its parameters
-        self.path = urlsplit(request_line.split(' ')[1])[2]
+        self.path = urlsplit(absolute_path_uri(request_line.split(' ')[1]))[2]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
         self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
@@ -870,6 +870,13 @@ def parse_request_headers(request_header_stream):
     
     return request_line, request_headers
 
+def absolute_path_uri(uri):
+    """
+    A request URI that starts with two slashes is an absolute path (RFC 7230 5.3.1),
+    return it with an empty authority so that its first segment isn't taken for one.
+    """
+    return '//' + uri if uri.startswith('//') else uri
+
 def parse_request_line(request_line=''):
     """
     Parse the request line in an HTTP/HTTP Proxy request and return a dictionary with 8 entries:
@@ -885,7 +892,7 @@ def parse_request_line(request_line=''):
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
     try:
-        request_uri_result = urlparse(uri)
+        request_uri_result = urlparse(absolute_path_uri(uri))
     except ValueError:
         #invalid IPv6 address or bytes outside of ASCII
         raise InvalidHttpRequest("Invalid request URI: {!r}".format(uri), 400)
-- 
2.43.0


From 7a9958c0ce4b2967ad94a8743d5fab1fa465fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 45/67] fix: a failing read of the header or of a multipart
 body raises UnreadablePostError

---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index a90f220..5dc1273 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -424,7 +424,7 @@ class HttpRequest(object,):
         #read until we find a '\r\n\r\n' sequence
         request_header_end = -1
         while request_header_end == -1:
-            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)
+            chunk = self.read(self.settings.MAX_HEADER_SIZE)
             if not chunk:
                 break
             
@@ -524,7 +524,7 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
-        data = body_stream.read(1)
+        data = self.read(1)
 
         #check if the body is empty
         if not data:
@@ -537,7 +537,7 @@ class HttpRequest(object,):
         if self.content_type == 'multipart/form-data':      
             try:
                 #returns POST QueryDict and MultiValueDict for _files
-                self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
+                self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), self)
             except MultiPartParserError:
                 # An error occurred while parsing POST data. Since when
                 # formatting the error the request handler might access
-- 
2.43.0


From 657598b6df1ea963291dfa71df87d672fb41a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 46/67] fix: iri_to_uri encodes unicode outside ASCII

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 1c7e006..0ef6ea0 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -86,7 +86,7 @@ def iri_to_uri(iri):
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
     else:
-        iri = str(iri)
+        iri = force_str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
 def uri_to_iri(uri):
-- 
2.43.0


From 34f3b5f27be14f68982c5ebf90f31996c7571f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 47/67] fix: a Content-Type with bytes outside ASCII is an
 InvalidHttpRequest

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5dc1273..75ddc83 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -485,7 +485,11 @@ class HttpRequest(object,):
         self.path = urlsplit(absolute_path_uri(request_line.split(' ')[1]))[2]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
-        self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
+        try:
+            self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
+        except UnicodeDecodeError:
+            #bytes outside of ASCII in the media type or in the name of a parameter
+            raise InvalidHttpRequest("Invalid Content-Type: {!r}".format(request_headers['Content-Type']), 400)
         #sanity check for when Content-Type is not present
         if header_dict is not None:        
             for key, value in header_dict.items():
-- 
2.43.0


From 012faa5a534ded8fae515f99be6d896db27910d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 48/67] fix: an HTTP date that does not exist raises ValueError

---
 request_parser/utils/http.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..6fe2902 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -15,9 +15,6 @@ from future.backports.urllib.parse import (
 from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
-#Python 2 replacement for raise_from
-from six import reraise as raise_
-
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
     \A(      # start of string and capture group
@@ -167,9 +164,9 @@ def parse_http_date(date):
         sec = int(m.group('sec'))
         result = datetime.datetime(year, month, day, hour, min, sec)
         return calendar.timegm(result.utctimetuple())
-    except Exception as exc:
+    except Exception:
         #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+        raise ValueError("%r is not a valid date" % date)
 
 
 def parse_http_date_safe(date):
-- 
2.43.0


From 5255c86fda6af1c3a7fa619ed53b40132b00be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 49/67] fix: urlsafe_base64_decode raises ValueError on Python
 2, too

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 6fe2902..d6b88fe 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -222,7 +222,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, TypeError, BinasciiError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From 427043bf9be2aa8a93306c7585ecac2c74857713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 50/67] fix: is_safe_url works for byte strings

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index d6b88fe..f6f0d10 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -360,7 +360,7 @@ def _is_safe_url(url, allowed_hosts, require_https=False):
     # Forbid URLs that start with control characters. Some browsers (like
     # Chrome) ignore quite a few control characters at the start of a
     # URL and might consider the URL as scheme relative.
-    if unicodedata.category(url[0])[0] == 'C':
+    if unicodedata.category(unichr(ord(url[0])))[0] == 'C':
         return False
     scheme = url_info.scheme
     # Consider URLs without a scheme (e.g. //example.com/p) to be http.
-- 
2.43.0


From c8998de5ec7b94f34080238f5c34c5530c0feb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 51/67] fix: is_safe_url does not accept parts of an allowed
 host given as unicode

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index f6f0d10..33b8d1f 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -286,7 +286,7 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, (str, unicode)):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From bf39e209a0e8ff79feef5716e97af1688d2963d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 52/67] fix: a huge character reference is left as it is

---
 request_parser/utils/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..b24ada0 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -13,7 +13,7 @@ def _replace_entity(match):
             else:
                 c = int(text)
             return chr(c)
-        except ValueError:
+        except (ValueError, OverflowError):
             return match.group(0)
     else:
         try:
-- 
2.43.0


From c776f7d7e3a5125b16c119e083c81909009e2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 53/67] fix: entities of unicode text outside ASCII can be
 unescaped

---
 request_parser/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index b24ada0..c07b3be 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -1,6 +1,8 @@
 import re
 import htmlentitydefs
 
+from request_parser.utils.encoding import force_str
+
 _entity_re = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")
 
 def _replace_entity(match):
@@ -22,4 +24,4 @@ def _replace_entity(match):
             return match.group(0)
 
 def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+    return _entity_re.sub(_replace_entity, force_str(text))
\ No newline at end of file
-- 
2.43.0


From 9adc10a013ed5fc3c9a802df9fcf52a459b4e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 54/67] fix: import_string raises ImportError

---
 request_parser/utils/module_loading.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..e2d9650 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -4,8 +4,6 @@ from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
 
-from six import reraise as raise_
-
 def import_string(dotted_path):
     """
     Import a dotted module path and return the attribute/class designated by the
@@ -13,19 +11,19 @@ def import_string(dotted_path):
     """
     try:
         module_path, class_name = dotted_path.rsplit('.', 1)
-    except ValueError as err:
+    except ValueError:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise ImportError("%s doesn't look like a module path" % dotted_path)
 
     module = import_module(module_path)
 
     try:
         return getattr(module, class_name)
-    except AttributeError as err:
+    except AttributeError:
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name))
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 858564639c297fe6f37ff9de2032b684bd00def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 55/67] fix: an upload directory that cannot be created is an
 InvalidDirectory

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 0c041439968d2ba9485f1e42c08a2620fd9c33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 56/67] fix: DjangoUnicodeDecodeError can be raised

---
 request_parser/utils/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 0ef6ea0..c301eb6 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -11,10 +11,10 @@ from future.backports.urllib.parse import quote, unquote
 class DjangoUnicodeDecodeError(UnicodeDecodeError):
     def __init__(self, obj, *args):
         self.obj = obj
-        super().__init__(*args)
+        super(DjangoUnicodeDecodeError, self).__init__(*args)
 
     def __str__(self):
-        return '%s. You passed in %r (%s)' % (super().__str__(), self.obj, type(self.obj))
+        return '%s. You passed in %r (%s)' % (super(DjangoUnicodeDecodeError, self).__str__(), self.obj, type(self.obj))
 
 def force_text(s, encoding='utf-8', strings_only=False, errors='strict'):
     return force_str(s, encoding, strings_only, errors)
-- 
2.43.0


From c2bbd2b2e972330bdff2daa58de684635cb7fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 57/67] fix: is_ajax looks at the X-Requested-With header

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 75ddc83..2651441 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -176,8 +176,10 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        if 'XMLHttpRequest' in self.META[MetaDict.Info.REQ_HEADERS]:
-            return True
+        req_headers = self.META.get(MetaDict.Info.REQ_HEADERS, {})
+        for name in req_headers:
+            if name.lower() == 'x-requested-with' and req_headers[name] == 'XMLHttpRequest':
+                return True
         return False
 
     def is_plain_text(self):
-- 
2.43.0


From 70f5c5339f81494c04406cb450f6fd6fa8e2b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 58/67] fix: the size of a File is a number

---
 request_parser/files/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index ccbad7c..e17c840 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -4,6 +4,18 @@ from io import BytesIO, StringIO, UnsupportedOperation
 from request_parser.files.utils import FileProxyMixin
 #from django.utils.functional import cached_property
 
+class ComputedSize(object):
+    """
+    Computes the size of a file that has no size of its own.
+    """
+    def __init__(self, func):
+        self.func = func
+
+    def __get__(self, instance, cls=None):
+        if instance is None:
+            return self
+        return self.func(instance)
+
 class File(FileProxyMixin):
     DEFAULT_CHUNK_SIZE = 64 * 2 ** 10
 
@@ -29,7 +41,7 @@ class File(FileProxyMixin):
     def __len__(self):
         return int(self.size)
 
-    #@cached_property
+    @ComputedSize
     def size(self):
         if hasattr(self.file, 'size'):
             return self.file.size
-- 
2.43.0


From ce53734b3dd5ffb827110755ecf63e9b60c56d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 59/67] fix: ContentFiles can be created

---
 request_parser/files/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index e17c840..d64ebf6 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -136,8 +136,8 @@ class ContentFile(File):
     A File-like object that takes just raw content, rather than an actual file.
     """
     def __init__(self, content, name=None):
-        stream_class = StringIO if isinstance(content, str) else BytesIO
-        super().__init__(stream_class(content), name=name)
+        stream_class = StringIO if isinstance(content, unicode) else BytesIO
+        File.__init__(self, stream_class(content), name=name)
         self.size = len(content)
 
     def __str__(self):
@@ -146,6 +146,8 @@ class ContentFile(File):
     def __bool__(self):
         return True
 
+    __nonzero__ = __bool__ # Python 2
+
     def open(self, mode=None):
         self.seek(0)
         return self
-- 
2.43.0


From 7a00012360a94300aa05a6096b50a99050d2072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 60/67] fix: a huge character reference is left as it is on
 Jython, too

---
 request_parser/utils/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index c07b3be..a325baa 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -15,7 +15,7 @@ def _replace_entity(match):
             else:
                 c = int(text)
             return chr(c)
-        except (ValueError, OverflowError):
+        except (ValueError, OverflowError, TypeError):
             return match.group(0)
     else:
         try:
-- 
2.43.0


From 69ec7f3fc60f2314306476dfad8ce9bf00b037e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 61/67] fix: urlencode encodes unicode values as a whole

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 33b8d1f..c37813d 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -94,7 +94,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, (str, bytes, unicode)):
             query_val = value
         else:
             try:
@@ -111,7 +111,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, (bytes, unicode)):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From b39494318184d42caa940b7f27860c83cb6ec811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 62/67] fix: escape_leading_slashes works for unicode outside
 ASCII

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index c37813d..9c255d4 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -434,5 +434,5 @@ def escape_leading_slashes(url):
     redirecting to another host.
     """
     if url.startswith('//'):
-        url = '/%2F{}'.format(url[2:])
+        url = '/%2F' + url[2:]
     return url
-- 
2.43.0


From bc256faf7dfd9d1949c179ddc82eb8b7d98e6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 63/67] fix: settings from an empty dictionary are the defaults

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..62e5be5 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -40,7 +40,7 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
-        if not settings_dict or type(settings_dict) != dict:
+        if type(settings_dict) != dict:
             return
 
         default_settings = Settings.default(check_presence=check_presence)
-- 
2.43.0


From a710eda5617887bd82dbd0967df4f72a509d8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 64/67] fix: the default upload handler's file is closed when
 its upload is skipped or aborted

---
 request_parser/files/uploadhandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..ac92ea8 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -210,7 +210,12 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
         self._handler = MemoryFileUploadHandler(request)
         self._received_data_size = 0
         self._switched_to_temp_file = False
-    
+
+    @property
+    def file(self):
+        #the parser closes the file of a handler when an upload is skipped or aborted
+        return self._handler.file
+
     def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
         #We grab the settings object and call the handler's handle_raw_input to activate it.
         self._settings = settings
-- 
2.43.0


From 40f313eaf80216f70443ef5dacac472a94532f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 65/67] fix: a failed or unfinished upload leaves no temporary
 file

---
 request_parser/http/multipartparser.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 88a4831..4d2ed07 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -101,6 +101,21 @@ class MultiPartParser:
 
         Return a tuple containing the POST and FILES dictionary, respectively.
         """
+        self._files = MultiValueDict()
+        # The files of handlers that are part of a completed upload.
+        self._completed_files = []
+        try:
+            return self._parse()
+        except Exception:
+            # Nobody else gets to close the files of a failed upload.
+            self._close_files()
+            for _, files in self._files.lists():
+                for file_obj in files:
+                    if hasattr(file_obj, 'close'):
+                        file_obj.close()
+            raise
+
+    def _parse(self):
         from request_parser.http.request import QueryDict
 
         encoding = self._encoding
@@ -132,9 +147,6 @@ class MultiPartParser:
 
         # Create the data structures to be used later.
         self._post = QueryDict(self.settings, mutable=True, encoding=encoding)
-        self._files = MultiValueDict()
-        # The files of handlers that are part of a completed upload.
-        self._completed_files = []
 
         # Instantiate the stream:
         stream = LazyStream(ChunkIter(self._input_data, self._chunk_size))
@@ -318,6 +330,9 @@ class MultiPartParser:
         else:
             # Make sure that the request data is all fed
             exhaust(self._input_data)
+            # A file that the body ended in is not complete.
+            if old_field_name is not None:
+                self._close_files()
 
         # Signal that the upload has completed.
         # any() shortcircuits if a handler's upload_complete() returns a value.
-- 
2.43.0


From fc660cb22b73a8f9c59797660d1cab4797bddded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 66/67] fix: a closed uploaded file is not reopened as the file
 its name happens to name

---
 request_parser/files/uploadedfile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 638d983..3a710b2 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -50,6 +50,13 @@ class UploadedFile(File, object):
 
     name = property(_get_name, _set_name)
 
+    def open(self, mode=None):
+        # The name is the one the client sent, it does not name the file here.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        self.seek(0)
+        return self
+
 class TemporaryUploadedFile(UploadedFile, object):
     """
     A file uploaded to a temporary location (i.e. stream-to-disk).
-- 
2.43.0


From a0b21264c1ae8b6ab7ba61f0d720a81ad66594b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 67/67] fix: a body refused as too big is not reported as empty
 when asked for again

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 2651441..a3b8847 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -396,6 +396,8 @@ class HttpRequest(object,):
                 raise UnreadablePostError(*e.args)
             
             if read_size > max_size:
+                #nothing of the body is lost, asking for it again is refused again
+                self._stream.unget(_body + chunk)
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0

