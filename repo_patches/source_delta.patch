From 851d384d16e446529ad39cb494d1c04bec14f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 1/9] fix: do not treat non-continuation bytes as part of a
 truncated utf8 codepoint

A three or four byte lead followed by fewer bytes than it needs was always
considered truncated, even when one of those bytes cannot continue it.  With
is_end the reported error range then covered valid text after the lead
(e.g. the 'A' in [E3 41]), and without is_end the error was withheld.
---
 src/utf8.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..6f0ddbd 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -30,9 +30,14 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
         let trailing_bytes = input.len() - valid_up_to;
         let byte = input[valid_up_to];
         // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
+        // Only continuation bytes can belong to a truncated codepoint: any
+        // other byte is the start of something else.
+        let is_truncated = (((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
             || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
+            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4))
+            && input[(valid_up_to + 1)..]
+                .iter()
+                .all(|b| (b & 0b1100_0000) == 0b1000_0000);
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0


From b3a1c212a974a2198f66ce50078eb7ee8e3ff956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 2/9] fix: drop repeated characters when generating single-byte
 encode tables

'seen &= {x}' never records anything, so a mapping that carries a character
at two bytes gave a table with two entries for it, of which the binary search
picks an arbitrary one.
---
 encoding_tables/single_byte/generate_ascii_ext_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding_tables/single_byte/generate_ascii_ext_tables.py b/encoding_tables/single_byte/generate_ascii_ext_tables.py
index 9c2d677..f4dfe62 100755
--- a/encoding_tables/single_byte/generate_ascii_ext_tables.py
+++ b/encoding_tables/single_byte/generate_ascii_ext_tables.py
@@ -44,7 +44,7 @@ def generate_ascii_ext_encoding(in_path, out_path):
     seen = set()  # Used to eliminate duplicate code points.
     for item in table:
         if not item[1] in seen:
-            seen &= {item[1]}
+            seen |= {item[1]}
             enc_table += [(item[1], item[0])]
     enc_table.sort()
 
-- 
2.43.0


From 49e6a5153a650c9075d7cbfd15b6aa753fd32b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 3/9] fix: document the characters that Shift JIS encoding does
 not preserve

The module claimed that encoding from str is lossless, but U+00A5, U+203E and
U+2212 are silently mapped to other characters.
---
 src/shiftjis_whatwg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shiftjis_whatwg.rs b/src/shiftjis_whatwg.rs
index f0e2418..51b272e 100644
--- a/src/shiftjis_whatwg.rs
+++ b/src/shiftjis_whatwg.rs
@@ -3,7 +3,11 @@
 //! There is a one-to-many mapping between Unicode and WHATWG Shift JIS.
 //! Therefore, decoding from WHATWG Shift JIS to `str` is lossy, because it
 //! throws away distinctions made in WHATWG Shift JIS that don't exist in
-//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless.
+//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless,
+//! with three exceptions that WHATWG prescribes: U+00A5 (YEN SIGN) is encoded
+//! as byte 0x5C, U+203E (OVERLINE) as byte 0x7E, and U+2212 (MINUS SIGN) as
+//! U+FF0D (FULLWIDTH HYPHEN-MINUS).  These decode to U+005C, U+007E, and
+//! U+FF0D respectively.
 use core;
 use {DecodeError, DecodeErrorCause, DecodeResult, EncodeError, EncodeResult};
 
-- 
2.43.0


From 8b7bf6f5b26e56f961cfa8bc3c8320bdc5f18af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 4/9] fix: utf8 decoding examined all of the remaining input on
 every call

With an output buffer smaller than the input, each call validated the whole
remaining input although only as much as fits can be converted, so that
streaming through a small buffer took quadratic time.
---
 src/utf8.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index 6f0ddbd..a4e8ca4 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -15,8 +15,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 }
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
-    // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
+    // Find how much of the data is valid utf8.  There's no need to look further
+    // than just beyond what the output buffer can hold: doing so would make
+    // streaming through a small buffer take quadratic time.
+    let max_len = core::cmp::min(input.len(), out_buffer.len().saturating_add(4));
+    let valid_up_to = match core::str::from_utf8(&input[..max_len]) {
         Ok(text) => text.len(),
         Err(e) => e.valid_up_to(),
     };
-- 
2.43.0


From 6629cde7cd1769f9a4f0b2fd6222f2e2e4bb701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 5/9] fix: a refused mapping file destroyed the table generated
 before

The output file was opened, and so emptied, before the mapping was read and
checked.
---
 encoding_tables/single_byte/generate_ascii_ext_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding_tables/single_byte/generate_ascii_ext_tables.py b/encoding_tables/single_byte/generate_ascii_ext_tables.py
index f4dfe62..c3906b6 100755
--- a/encoding_tables/single_byte/generate_ascii_ext_tables.py
+++ b/encoding_tables/single_byte/generate_ascii_ext_tables.py
@@ -2,7 +2,6 @@
 
 def generate_ascii_ext_encoding(in_path, out_path):
     in_file = open(in_path)
-    out_file = open(out_path, mode='w')
 
     # Load the table from the file.
     table = []
@@ -49,6 +48,7 @@ def generate_ascii_ext_encoding(in_path, out_path):
     enc_table.sort()
 
     # Write out shared code.
+    out_file = open(out_path, mode='w')
     out_file.write(
 """// This file is auto-generated.  Please see `encoding_tables/single_byte/`
 // from the root directory for the files that generate this.
-- 
2.43.0


From 6bdc0e21686f81d954f9e2a2449fdbcbee1dbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 6/9] fix: the table generators failed where the locale's
 encoding is not UTF-8

The mapping files contain UTF-8, and a generated table U+FFFD.
---
 encoding_tables/single_byte/generate_ascii_ext_tables.py | 4 ++--
 encoding_tables/whatwg/generate_big5.py                  | 4 ++--
 encoding_tables/whatwg/generate_shiftjis.py              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/encoding_tables/single_byte/generate_ascii_ext_tables.py b/encoding_tables/single_byte/generate_ascii_ext_tables.py
index c3906b6..e0a659f 100755
--- a/encoding_tables/single_byte/generate_ascii_ext_tables.py
+++ b/encoding_tables/single_byte/generate_ascii_ext_tables.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 
 def generate_ascii_ext_encoding(in_path, out_path):
-    in_file = open(in_path)
+    in_file = open(in_path, encoding='utf-8')
 
     # Load the table from the file.
     table = []
@@ -48,7 +48,7 @@ def generate_ascii_ext_encoding(in_path, out_path):
     enc_table.sort()
 
     # Write out shared code.
-    out_file = open(out_path, mode='w')
+    out_file = open(out_path, mode='w', encoding='utf-8')
     out_file.write(
 """// This file is auto-generated.  Please see `encoding_tables/single_byte/`
 // from the root directory for the files that generate this.
diff --git a/encoding_tables/whatwg/generate_big5.py b/encoding_tables/whatwg/generate_big5.py
index e3b51f3..a11f0cb 100644
--- a/encoding_tables/whatwg/generate_big5.py
+++ b/encoding_tables/whatwg/generate_big5.py
@@ -47,7 +47,7 @@ def deduped_table(table):
 
 
 def load_table_file(path):
-    in_file = open(path)
+    in_file = open(path, encoding='utf-8')
     table = []
     for line in in_file:
         parts = line.split()
@@ -77,7 +77,7 @@ def generate_big5_tables(in_path, out_path):
     enc_table.sort()
 
     # Write file.
-    out_file = open(out_path, mode='w')
+    out_file = open(out_path, mode='w', encoding='utf-8')
     out_file.write(
 """// This file is auto-generated.  Please see `encoding_tables/whatwg/`
 // from the root directory for the files that generate this.
diff --git a/encoding_tables/whatwg/generate_shiftjis.py b/encoding_tables/whatwg/generate_shiftjis.py
index aa4626e..4c9ed99 100644
--- a/encoding_tables/whatwg/generate_shiftjis.py
+++ b/encoding_tables/whatwg/generate_shiftjis.py
@@ -38,7 +38,7 @@ def deduped_table(table):
 
 
 def load_table_file(path):
-    in_file = open(path)
+    in_file = open(path, encoding='utf-8')
     table = []
     for line in in_file:
         parts = line.split()
@@ -68,7 +68,7 @@ def generate_shiftjis_tables(in_path, out_path):
     enc_table.sort()
 
     # Write file.
-    out_file = open(out_path, mode='w')
+    out_file = open(out_path, mode='w', encoding='utf-8')
     out_file.write(
 """// This file is auto-generated.  Please see `encoding_tables/whatwg/`
 // from the root directory for the files that generate this.
-- 
2.43.0


From 0e14fb88d229870e67860bc64f10a30f870879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 7/9] fix: malformed mapping files gave tables that are wrong
 or do not build

A byte or index that was listed twice shifted the entries after it; one that
is out of range, or a value that is not a character, gave a table that does
not build, or was refused only after half of the files were overwritten.
---
 encoding_tables/single_byte/generate_ascii_ext_tables.py | 7 +++++++
 encoding_tables/whatwg/generate_big5.py                  | 8 ++++++++
 encoding_tables/whatwg/generate_shiftjis.py              | 8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/encoding_tables/single_byte/generate_ascii_ext_tables.py b/encoding_tables/single_byte/generate_ascii_ext_tables.py
index e0a659f..613977f 100755
--- a/encoding_tables/single_byte/generate_ascii_ext_tables.py
+++ b/encoding_tables/single_byte/generate_ascii_ext_tables.py
@@ -15,6 +15,13 @@ def generate_ascii_ext_encoding(in_path, out_path):
             table += [(byte, unicode)]
     table.sort()
 
+    # Verify that every byte is listed only once, and mapped to a character.
+    for (i, (byte, unicode)) in enumerate(table):
+        if not 0 <= byte <= 255 or (i > 0 and table[i - 1][0] == byte):
+            raise Exception("Invalid or repeated byte: file {}, byte {}".format(in_path, byte))
+        if not 0 <= unicode <= 0x10FFFF or 0xD800 <= unicode <= 0xDFFF:
+            raise Exception("Not a character: file {}, codepoint {}".format(in_path, unicode))
+
     # Verify that it is indeed an ascii extension (i.e. all bytes <= 127
     # should exist and map 1-to-1 to the unicode codepoints with the same
     # value.
diff --git a/encoding_tables/whatwg/generate_big5.py b/encoding_tables/whatwg/generate_big5.py
index a11f0cb..c4395a7 100644
--- a/encoding_tables/whatwg/generate_big5.py
+++ b/encoding_tables/whatwg/generate_big5.py
@@ -56,6 +56,14 @@ def load_table_file(path):
             unicode = int(parts[1], 16)
             table += [(byte, unicode)]
     table.sort()
+
+    # Verify that every index is listed only once, and mapped to a character.
+    for (i, (index, codepoint)) in enumerate(table):
+        if not 0 <= index <= 19781 or (i > 0 and table[i - 1][0] == index):
+            raise Exception("Invalid or repeated index: file {}, index {}".format(path, index))
+        if not 0 <= codepoint <= 0x10FFFF or 0xD800 <= codepoint <= 0xDFFF:
+            raise Exception("Not a character: file {}, codepoint {}".format(path, codepoint))
+
     return table
 
 
diff --git a/encoding_tables/whatwg/generate_shiftjis.py b/encoding_tables/whatwg/generate_shiftjis.py
index 4c9ed99..1d415a2 100644
--- a/encoding_tables/whatwg/generate_shiftjis.py
+++ b/encoding_tables/whatwg/generate_shiftjis.py
@@ -47,6 +47,14 @@ def load_table_file(path):
             unicode = int(parts[1], 16)
             table += [(byte, unicode)]
     table.sort()
+
+    # Verify that every index is listed only once, and mapped to a character.
+    for (i, (index, codepoint)) in enumerate(table):
+        if not 0 <= index <= 11279 or (i > 0 and table[i - 1][0] == index):
+            raise Exception("Invalid or repeated index: file {}, index {}".format(path, index))
+        if not 0 <= codepoint <= 0x10FFFF or 0xD800 <= codepoint <= 0xDFFF:
+            raise Exception("Not a character: file {}, codepoint {}".format(path, codepoint))
+
     return table
 
 
-- 
2.43.0


From afb8550db65e752b2390a2d6161de00a26b96f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 8/9] fix: Big5 and Shift JIS tables were copied to the stack
 by unoptimised builds

Indexing a const array makes a copy of it unless the optimiser sees through
it: up to 145 KiB of stack, for each character.
---
 encoding_tables/whatwg/generate_big5.py            | 4 ++--
 encoding_tables/whatwg/generate_shiftjis.py        | 4 ++--
 src/generated/whatwg/big5_whatwg_tables.rs.inc     | 4 ++--
 src/generated/whatwg/shiftjis_whatwg_tables.rs.inc | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/encoding_tables/whatwg/generate_big5.py b/encoding_tables/whatwg/generate_big5.py
index c4395a7..3ed253e 100644
--- a/encoding_tables/whatwg/generate_big5.py
+++ b/encoding_tables/whatwg/generate_big5.py
@@ -94,7 +94,7 @@ def generate_big5_tables(in_path, out_path):
     )
 
     # Write out decode table
-    out_file.write("const DECODE_TABLE: [char; {}] = [".format(len(dec_table)))
+    out_file.write("static DECODE_TABLE: [char; {}] = [".format(len(dec_table)))
     for (i, c) in enumerate(dec_table):
         if i % 8 == 0:
             out_file.write("\n    ")
@@ -105,7 +105,7 @@ def generate_big5_tables(in_path, out_path):
     out_file.write("\n];\n\n")
 
     # Write out encode table
-    out_file.write("const ENCODE_TABLE: [(char, [u8; 2]); {}] = [".format(len(enc_table)))
+    out_file.write("static ENCODE_TABLE: [(char, [u8; 2]); {}] = [".format(len(enc_table)))
     for (i, pair) in enumerate(enc_table):
         if i % 3 == 0:
             out_file.write("\n    ")
diff --git a/encoding_tables/whatwg/generate_shiftjis.py b/encoding_tables/whatwg/generate_shiftjis.py
index 1d415a2..6ac1a84 100644
--- a/encoding_tables/whatwg/generate_shiftjis.py
+++ b/encoding_tables/whatwg/generate_shiftjis.py
@@ -85,7 +85,7 @@ def generate_shiftjis_tables(in_path, out_path):
     )
 
     # Write out decode table
-    out_file.write("const DECODE_TABLE: [char; {}] = [".format(len(dec_table)))
+    out_file.write("static DECODE_TABLE: [char; {}] = [".format(len(dec_table)))
     for (i, c) in enumerate(dec_table):
         if i % 8 == 0:
             out_file.write("\n    ")
@@ -96,7 +96,7 @@ def generate_shiftjis_tables(in_path, out_path):
     out_file.write("\n];\n\n")
 
     # Write out encode table
-    out_file.write("const ENCODE_TABLE: [(char, [u8; 2]); {}] = [".format(len(enc_table)))
+    out_file.write("static ENCODE_TABLE: [(char, [u8; 2]); {}] = [".format(len(enc_table)))
     for (i, pair) in enumerate(enc_table):
         if i % 3 == 0:
             out_file.write("\n    ")
diff --git a/src/generated/whatwg/big5_whatwg_tables.rs.inc b/src/generated/whatwg/big5_whatwg_tables.rs.inc
index ef186ff..b05f981 100644
--- a/src/generated/whatwg/big5_whatwg_tables.rs.inc
+++ b/src/generated/whatwg/big5_whatwg_tables.rs.inc
@@ -1,7 +1,7 @@
 // This file is auto-generated.  Please see `encoding_tables/whatwg/`
 // from the root directory for the files that generate this.
 
-const DECODE_TABLE: [char; 19782] = [
+static DECODE_TABLE: [char; 19782] = [
     '�','�','�','�','�','�','�','�',
     '�','�','�','�','�','�','�','�',
     '�','�','�','�','�','�','�','�',
@@ -2477,7 +2477,7 @@ const DECODE_TABLE: [char; 19782] = [
     '\u{6E2A}','\u{27126}','\u{3EA8}','\u{79C6}','\u{2910D}','\u{79D4}',
 ];
 
-const ENCODE_TABLE: [(char, [u8; 2]); 18490] = [
+static ENCODE_TABLE: [(char, [u8; 2]); 18490] = [
     ('\u{A7}', [0xA1, 0xB1]), ('\u{A8}', [0xC6, 0xD8]), ('\u{AF}', [0xA1, 0xC2]), 
     ('\u{B0}', [0xA2, 0x58]), ('\u{B1}', [0xA1, 0xD3]), ('\u{B7}', [0xA1, 0x50]), 
     ('\u{C0}', [0x88, 0x59]), ('\u{C1}', [0x88, 0x57]), ('\u{C8}', [0x88, 0x5D]), 
diff --git a/src/generated/whatwg/shiftjis_whatwg_tables.rs.inc b/src/generated/whatwg/shiftjis_whatwg_tables.rs.inc
index 38bbdf3..05b7f1a 100644
--- a/src/generated/whatwg/shiftjis_whatwg_tables.rs.inc
+++ b/src/generated/whatwg/shiftjis_whatwg_tables.rs.inc
@@ -1,7 +1,7 @@
 // This file is auto-generated.  Please see `encoding_tables/whatwg/`
 // from the root directory for the files that generate this.
 
-const DECODE_TABLE: [char; 11104] = [
+static DECODE_TABLE: [char; 11104] = [
     '\u{3000}','\u{3001}','\u{3002}','\u{FF0C}','\u{FF0E}','\u{30FB}','\u{FF1A}','\u{FF1B}',
     '\u{FF1F}','\u{FF01}','\u{309B}','\u{309C}','\u{00B4}','\u{FF40}','\u{00A8}','\u{FF3E}',
     '\u{FFE3}','\u{FF3F}','\u{30FD}','\u{30FE}','\u{309D}','\u{309E}','\u{3003}','\u{4EDD}',
@@ -1392,7 +1392,7 @@ const DECODE_TABLE: [char; 11104] = [
     '\u{9BB1}','\u{9BBB}','\u{9C00}','\u{9D70}','\u{9D6B}','\u{FA2D}','\u{9E19}','\u{9ED1}',
 ];
 
-const ENCODE_TABLE: [(char, [u8; 2]); 7326] = [
+static ENCODE_TABLE: [(char, [u8; 2]); 7326] = [
     ('\u{A7}', [0x81, 0x98]), ('\u{A8}', [0x81, 0x4E]), ('\u{B0}', [0x81, 0x8B]), 
     ('\u{B1}', [0x81, 0x7D]), ('\u{B4}', [0x81, 0x4C]), ('\u{B6}', [0x81, 0xF7]), 
     ('\u{D7}', [0x81, 0x7E]), ('\u{F7}', [0x81, 0x80]), ('\u{391}', [0x83, 0x9F]), 
-- 
2.43.0


From bc846103f7410de69bef461f11a03c275d975b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 9/9] fix: make the generator scripts fail if a file cannot be
 written in full

The output files were left to be closed by the garbage collector, which
ignores errors: when the last part of a file could not be written (e.g. no
space left), the script ended with status 0 and a truncated file.
---
 encoding_tables/single_byte/generate_ascii_ext_tables.py | 1 +
 encoding_tables/whatwg/generate_big5.py                  | 5 +++++
 encoding_tables/whatwg/generate_shiftjis.py              | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/encoding_tables/single_byte/generate_ascii_ext_tables.py b/encoding_tables/single_byte/generate_ascii_ext_tables.py
index 613977f..bf12d05 100755
--- a/encoding_tables/single_byte/generate_ascii_ext_tables.py
+++ b/encoding_tables/single_byte/generate_ascii_ext_tables.py
@@ -96,6 +96,7 @@ pub fn encode_from_str<'a>(
             out_file.write("\n    ")
         out_file.write("('\\u{{{:04X}}}', 0x{:02X}), ".format(pair[0], pair[1]))
     out_file.write("\n];\n")
+    out_file.close()
 
 
 if __name__ == "__main__":
diff --git a/encoding_tables/whatwg/generate_big5.py b/encoding_tables/whatwg/generate_big5.py
index 3ed253e..cf372f1 100644
--- a/encoding_tables/whatwg/generate_big5.py
+++ b/encoding_tables/whatwg/generate_big5.py
@@ -111,6 +111,7 @@ def generate_big5_tables(in_path, out_path):
             out_file.write("\n    ")
         out_file.write("('\\u{{{:X}}}', [0x{:X}, 0x{:X}]), ".format(pair[0], pair[1][0], pair[1][1]))
     out_file.write("\n];\n")
+    out_file.close()
 
 
 def generate_big5_test_data(in_path, dec_in_path, dec_out_path, enc_in_path, enc_out_path):
@@ -146,6 +147,8 @@ def generate_big5_test_data(in_path, dec_in_path, dec_out_path, enc_in_path, enc
         decode_out_file.write(chr(codepoints[0]).encode('utf-8'))
         decode_out_file.write(chr(codepoints[1]).encode('utf-8'))
         decode_out_file.write(bytes("\n", 'utf-8'))
+    decode_in_file.close()
+    decode_out_file.close()
 
     # Generate encoding test files.
     encode_in_file = open(enc_in_path, "wb")
@@ -177,6 +180,8 @@ def generate_big5_test_data(in_path, dec_in_path, dec_out_path, enc_in_path, enc
         # Out
         encode_out_file.write(bytes(index_to_bytes(index)))
         encode_out_file.write(bytes("\n", 'utf-8'))
+    encode_in_file.close()
+    encode_out_file.close()
 
 
 if __name__ == "__main__":
diff --git a/encoding_tables/whatwg/generate_shiftjis.py b/encoding_tables/whatwg/generate_shiftjis.py
index 6ac1a84..523e483 100644
--- a/encoding_tables/whatwg/generate_shiftjis.py
+++ b/encoding_tables/whatwg/generate_shiftjis.py
@@ -102,6 +102,7 @@ def generate_shiftjis_tables(in_path, out_path):
             out_file.write("\n    ")
         out_file.write("('\\u{{{:X}}}', [0x{:X}, 0x{:X}]), ".format(pair[0], pair[1][0], pair[1][1]))
     out_file.write("\n];\n")
+    out_file.close()
 
 
 def generate_shiftjis_test_data(in_path, dec_in_path, dec_out_path, enc_in_path, enc_out_path):
@@ -124,6 +125,8 @@ def generate_shiftjis_test_data(in_path, dec_in_path, dec_out_path, enc_in_path,
         # Out
         decode_out_file.write(chr(codepoint).encode('utf-8'))
         decode_out_file.write(bytes("\n", 'utf-8'))
+    decode_in_file.close()
+    decode_out_file.close()
 
     # Generate encoding test files.
     encode_in_file = open(enc_in_path, "wb")
@@ -142,6 +145,8 @@ def generate_shiftjis_test_data(in_path, dec_in_path, dec_out_path, enc_in_path,
         # Out
         encode_out_file.write(bytes(index_to_bytes(index)))
         encode_out_file.write(bytes("\n", 'utf-8'))
+    encode_in_file.close()
+    encode_out_file.close()
 
 
 if __name__ == "__main__":
-- 
2.43.0

