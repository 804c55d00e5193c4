From 83923d0c866bb6bbeae6a108f81cfcb7ad213525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 01/20] fix: raise ValueError for an unknown checksum id in the
 bloscpack header

It raised IndexError, which neither the documentation nor the command line
expects.
---
 bloscpack/headers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..9203e33 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -388,11 +388,15 @@ class BloscpackHeader(MutableMappingObject):
                 "the magic marker %r is missing from the bloscpack " % MAGIC +
                 "header, instead we found: %r" % buffer_[0:4])
         options = decode_options(decode_bitfield(buffer_[5]))
+        checksum_id = decode_uint8(buffer_[6])
+        if checksum_id >= len(CHECKSUMS_AVAIL):
+            raise ValueError("unknown checksum id in bloscpack header: '%d'" %
+                             checksum_id)
         return BloscpackHeader(
             format_version=decode_uint8(buffer_[4]),
             offsets=options['offsets'],
             metadata=options['metadata'],
-            checksum=CHECKSUMS_AVAIL[decode_uint8(buffer_[6])],
+            checksum=CHECKSUMS_AVAIL[checksum_id],
             typesize=decode_uint8(buffer_[7]),
             chunk_size=decode_int32(buffer_[8:12]),
             last_chunk=decode_int32(buffer_[12:16]),
-- 
2.43.0


From c83fdebc0bf7382142044618355d8a9fcc5ca2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 02/20] fix: strip only the padding from magic strings when
 decoding

Leading NUL bytes belong to the string and were lost.
---
 bloscpack/headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index 9203e33..4136205 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -128,9 +128,9 @@ def decode_bitfield(byte):
 
 def decode_magic_string(str_):
     if PY3:
-        return str_.strip(b'\x00')
+        return str_.rstrip(b'\x00')
     else:
-        return str_.strip('\x00')
+        return str_.rstrip('\x00')
 
 
 def encode_uint8(byte):
-- 
2.43.0


From 02a0356d87541a0deb950ece5f0dc33b19b9e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 03/20] fix: record metadata level 0 when the metadata is
 stored uncompressed

The format requires the level to be 0 if the codec is None.
---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..a291e74 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -121,7 +121,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From 786c1b1d6a5716a7c6f4af1b7b0ac0508d3e47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 04/20] fix: do not modify the caller's MetadataArgs when
 writing metadata

Once incompressible metadata had deactivated the codec it stayed deactivated
for all later uses of the same arguments.
---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index a291e74..0681970 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -82,6 +82,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    # the codec may be deactivated below, leave the caller's object alone
+    metadata_args = metadata_args.copy()
     metadata_total = 0
     metadata_total += METADATA_HEADER_LENGTH
     serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
-- 
2.43.0


From 7568d68d959d6722b2ff618cb8927544c2d698e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 05/20] fix: do not modify the caller's blosc_args in append
 and pack_ndarray

The typesize of the first file or array stuck to the arguments.
---
 bloscpack/append.py   | 3 +++
 bloscpack/numpy_io.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..ea4e2de 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -92,6 +92,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        # unset values are filled in below, leave the caller's object alone
+        blosc_args = blosc_args.copy()
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..e89bb50 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -180,6 +180,7 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From d6c0ebbe956e1108fb936bc0b07746935e2fad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 06/20] fix: report errors on the command line instead of
 raising AttributeError

Exceptions have no 'message' attribute in Python 3.
---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From fe02202afecfd6462e73a51f06335171911a5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 07/20] fix: find the offsets of files whose metadata is the
 JSON value null

append wrote the new offsets over the metadata section.
---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index ea4e2de..e8bb75d 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -114,7 +114,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if metadata_header is not None else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From c983fe35c21482cb36b5ce3f66608eef717d4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/20] fix: verify the checksum of the last chunk before
 appending

A damaged last chunk was compressed again and stored with a valid checksum.
---
 bloscpack/append.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e8bb75d..bbac8bc 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -120,7 +121,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                    "Checksum mismatch detected in last chunk, "
+                    "expected: '%s', received: '%s'" %
+                    (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From aff419328b144d03098585c043ee85a6d83a466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 09/20] fix: report a missing digest when unpacking

A file cut just before a digest was unpacked without verification.
---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From 5fc987b61ba6a76fef3f2708cd7fc5e8c04449a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 10/20] fix: cut off what is left of the old last chunk after
 appending

A last chunk that became shorter by compressing it again left bytes of the
old one behind the end of the new one.
---
 bloscpack/append.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index bbac8bc..c07a637 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -142,6 +142,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
         digest = checksum_impl(compressed)
         _write_compressed_chunk(original_fp, compressed, digest)
+        # the chunk may have become shorter
+        original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
         bloscpack_header.last_chunk += new_size
@@ -185,6 +187,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
 
         compressed = _compress_chunk_str(chunk, blosc_args)
         sink.put(i, compressed)
+    # the chunks may have become shorter
+    original_fp.truncate()
 
     # build the new header
     bloscpack_header.last_chunk = last_chunk_size
-- 
2.43.0


From 2e98509a087ffe729e1af9dbc33b0e8dce004976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 11/20] fix: allow appending an empty file

It raised ZeroDivisionError after the file had been modified.
---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index c07a637..2e3c298 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -233,8 +233,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From 24b0c25659e802eb31ae541e0225276fe4d59c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/20] fix: let log.set_level set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 73b7fac30a030e8c8badf43d6aaa28a2c578a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 13/20] fix: report the size of the packed bytes in
 pack_bytes_to_bytes

Writing the offsets leaves the position behind the offsets, not at the end.
---
 bloscpack/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0681970..15bce3d 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -660,7 +660,7 @@ def pack_bytes_to_bytes(bytes_,
          blosc_args=blosc_args,
          bloscpack_args=bloscpack_args,
          metadata_args=metadata_args)
-    out_bytes_size = sio.tell()
+    out_bytes_size = len(sio.getvalue())
     log.verbose('output bytes size: %s' % double_pretty_size(out_bytes_size))
     log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))
     return sio.getvalue()
-- 
2.43.0


From a43dce4f9304cac4c27367cae83d36bb80527978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 14/20] fix: raise NotANumpyArray for any metadata that is not
 of an array

Metadata without 'container' raised KeyError or TypeError.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index e89bb50..cab6773 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -121,7 +121,8 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if not isinstance(metadata, dict) or \
+                metadata.get('container') != 'numpy':
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
-- 
2.43.0


From 38b946072a1b04c71c9a05aba92378728ea69ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 15/20] fix: check that the chunks fill a numpy array exactly
 when unpacking

Larger content than dtype and shape say was written behind the array, smaller
content left part of it uninitialised.
---
 bloscpack/numpy_io.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index cab6773..157d260 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -31,6 +31,8 @@ from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
                          )
+from .headers import (decode_blosc_header,
+                      )
 from .pretty import (double_pretty_size,
                      )
 from . import log
@@ -141,10 +143,19 @@ class PlainNumpySink(PlainSink):
                                    dtype=numpy.dtype(dtype_),
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        # number of bytes of the array that have not been filled yet
+        self.remaining = self.ndarray.size * self.ndarray.itemsize
 
     def put(self, compressed):
+        nbytes = decode_blosc_header(compressed)['nbytes']
+        if nbytes > self.remaining:
+            raise ValueError(
+                "chunk of '%s' does not fit into the '%s' left in the array" %
+                (double_pretty_size(nbytes),
+                 double_pretty_size(self.remaining)))
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -306,6 +317,9 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError("'%s' of the array are missing from the source" %
+                         double_pretty_size(sink.remaining))
     return sink.ndarray
 
 
-- 
2.43.0


From 80f6988ff3fc06365fc98a835f3d231430012388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 16/20] fix: reject invalid chunk sizes on the command line

Zero, too large, empty and infinite sizes ended in an exception.
---
 bloscpack/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..4344e18 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -301,10 +301,13 @@ def create_parser():
                     # seems to be intended to be a naked int
                     else:
                         value = int(value)
-                except ValueError as ve:
+                except (ValueError, IndexError, OverflowError) as ve:
                     log.error('%s error: %s' % (option_string, str(ve)))
-                if value < 0:
+                if value < 1:
                     log.error('%s must be > 0' % option_string)
+                elif value > blosc.BLOSC_MAX_BUFFERSIZE:
+                    log.error('%s must be <= %d' %
+                              (option_string, blosc.BLOSC_MAX_BUFFERSIZE))
             setattr(namespace, self.dest, value)
     for p in [compress_parser, c_parser]:
         _inject_blosc_group(p)
-- 
2.43.0


From 48e9f1e8c544a4a7e1251c65a8563d51cd53b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 17/20] fix: report a refused append on the command line

Not enough space, a missing metadata section and the like ended in an
exception.
---
 bloscpack/cli.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 4344e18..dac3377 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -495,11 +495,14 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
-        append(original_file, new_file, blosc_args=blosc_args)
-        if metadata is not None:
-            with open(original_file, 'r+b') as fp:
-                _seek_to_metadata(fp)
-                _rewrite_metadata_fp(fp, metadata)
+        try:
+            append(original_file, new_file, blosc_args=blosc_args)
+            if metadata is not None:
+                with open(original_file, 'r+b') as fp:
+                    _seek_to_metadata(fp)
+                    _rewrite_metadata_fp(fp, metadata)
+        except (ValueError, RuntimeError) as e:
+            log.error(str(e))
     elif args.subcommand in ('info', 'i'):
         try:
             if not path.exists(args.file_):
-- 
2.43.0


From 8229d5077eae6b24e4469c8a1043867b007b0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 18/20] fix: report files and values that can not be used on
 the command line

Another format version, damaged metadata, files of another kind and metadata
that is not JSON ended in an exception.
---
 bloscpack/cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index dac3377..f3a64b1 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -163,6 +163,9 @@ def process_metadata_args(args):
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
             log.error(str(ioe))
+        except ValueError as ve:
+            log.error("invalid metadata in '%s': %s" %
+                      (args.metadata, str(ve)))
 
 
 def process_nthread_arg(args):
@@ -462,7 +465,7 @@ def main():
                               blosc_args=blosc_args,
                               bloscpack_args=bloscpack_args,
                               metadata_args=MetadataArgs())
-        except ChunkingException as ce:
+        except (ChunkingException, ValueError) as ce:
             log.error(str(ce))
     elif args.subcommand in ['decompress', 'd']:
         log.verbose('getting ready for decompression')
@@ -479,6 +482,8 @@ def main():
             log.error(str(fvm))
         except ChecksumMismatch as csm:
             log.error(str(csm))
+        except ValueError as ve:
+            log.error(str(ve))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
@@ -521,6 +526,8 @@ def main():
         except ValueError as ve:
             log.error(str(ve) + "\n" +
                       "This might not be a bloscpack compressed file.")
+        except (FormatVersionMismatch, ChecksumMismatch) as e:
+            log.error(str(e))
         log.normal(bloscpack_header.pformat())
         if offsets:
             log.normal("'offsets':")
-- 
2.43.0


From 7b76a2096a0a6e52243dc9ea5e2a21c76665ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:06 +0000
Subject: [PATCH 19/20] fix: refuse to pack or unpack a file onto itself

---
 bloscpack/file_io.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 15bce3d..467be39 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -420,6 +420,20 @@ class CompressedFPSink(CompressedSink):
         return offset, compressed, digest
 
 
+def _check_not_same_file(in_file, out_file):
+    """ Check that reading one file and writing the other is possible.
+
+    Raises
+    ------
+    ValueError
+        if both names denote the same file
+
+    """
+    if path.realpath(in_file) == path.realpath(out_file):
+        raise ValueError("'%s' and '%s' are the same file" %
+                         (in_file, out_file))
+
+
 def pack_file_to_file(in_file, out_file,
                       chunk_size=DEFAULT_CHUNK_SIZE,
                       metadata=None,
@@ -450,11 +464,14 @@ def pack_file_to_file(in_file, out_file,
 
     ChunkingException
         if there was a problem caculating the chunks
+    ValueError
+        if 'in_file' and 'out_file' are the same file
 
     # TODO document which arguments are silently ignored
 
     """
     in_file_size = path.getsize(in_file)
+    _check_not_same_file(in_file, out_file)
     log.verbose('input file size: %s' % double_pretty_size(in_file_size))
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
@@ -500,8 +517,11 @@ def unpack_file_from_file(in_file, out_file):
         if the file has an unmatching format version number
     ChecksumMismatch
         if any of the chunks fail to produce the correct checksum
+    ValueError
+        if 'in_file' and 'out_file' are the same file
     """
     in_file_size = path.getsize(in_file)
+    _check_not_same_file(in_file, out_file)
     log.verbose('input file size: %s' % pretty_size(in_file_size))
     with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
         source = CompressedFPSource(input_fp)
-- 
2.43.0


From 8f670faf9d7787d3734cbfe544ba99bc6e811464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:06 +0000
Subject: [PATCH 20/20] fix: refuse to append a file to itself

---
 bloscpack/append.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 2e3c298..a111d9b 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -48,6 +48,7 @@ from .file_io import (PlainFPSource,
                       _read_bloscpack_header,
                       _read_metadata,
                       _write_metadata,
+                      _check_not_same_file,
                       )
 from .headers import check_range
 from .metacodecs import check_valid_codec
@@ -224,6 +225,7 @@ def append(orig_file, new_file, blosc_args=None):
     """
     orig_size_before = path.getsize(orig_file)
     new_size = path.getsize(new_file)
+    _check_not_same_file(orig_file, new_file)
     log.verbose('orig file size before append: %s' %
             double_pretty_size(orig_size_before))
     log.verbose('new file size: %s' % double_pretty_size(new_size))
-- 
2.43.0

