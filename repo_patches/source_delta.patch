From 64b8efc4489e07badd8f562e72f32ee88ecde874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 1/7] fix: decode the handle tags of RegSetInfoKey events

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..856cff2 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 9e986c513c785ff2057773b425cf2bb214ce651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 2/7] fix: account for the padding before FileId in
 FILE_ID_FULL_DIR_INFORMATION

---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 856cff2..2c4da22 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -406,6 +406,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                 continue
             if file_information_class == FileInformationClass.FileIdFullDirectoryInformation:
                 # FILE_ID_FULL_DIR_INFORMATION structure
+                extra_detail_io.seek(4, 1)  # Padding
                 file_id = read_u64(extra_detail_io)
                 event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                 continue
-- 
2.43.0


From 83bd18505753b0af69b4a8bbf4ec686764087344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 3/7] fix: do not fail on directory queries with an empty path

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 2c4da22..a045f1a 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From a0fcd10483571423617156e406d291802926c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 4/7] fix: dump rules whose value has digits that do not make a
 32-bit number

---
 procmon_parser/configuration_format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..bb2d87f 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -59,7 +59,11 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 def get_rule_integer_value(column, value):
     if value.isdigit():
-        return int(value)
+        try:
+            int_value = int(value)
+        except ValueError:  # digits that are not decimal, or too many of them
+            return 0
+        return int_value if int_value <= 0xffffffff else 0
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0


From 6c54db77c767867239a7bae046093d92fec5207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 5/7] fix: read the whole service pack name of the header

---
 procmon_parser/stream_logs_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..de1ef40 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -42,9 +42,9 @@ class Header(object):
         self.windows_build_number = read_u32(stream)
         self.windows_build_number_after_decimal_point = read_u32(stream)
 
-        self.service_pack_name = read_utf16(stream, 0x32)
+        self.service_pack_name = read_utf16(stream, 0x100)
 
-        stream.seek(0xd6, 1)  # Unknown field
+        stream.seek(8, 1)  # Unknown field
         self.number_of_logical_processors = read_u32(stream)
         self.ram_memory_size = read_u64(stream)
         self.header_size = read_u64(stream)
-- 
2.43.0


From 64fcb21f2c428d271a46f216c0b5054ed4f9d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 6/7] fix: refuse PMC records with inconsistent sizes that
 reach past the end of the file

---
 procmon_parser/configuration_format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index bb2d87f..6bcd8b2 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -5,7 +5,7 @@ from collections import OrderedDict
 from io import BytesIO
 
 from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
-    Rebuild, Default, Pointer, StreamError
+    Rebuild, Default, If, Pointer, StreamError
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -129,6 +129,9 @@ Struct that contains generic procmon configuration option.
     "record_header_and_name_size" / Default(Int32ul, 0x10),
     "data_size_offset" / Tell,  # NOT IN THE REAL FORMAT - USED FOR BUILDING ONLY
     "data_size" / Default(Int32ul, 0),
+    If(lambda this: this._parsing,
+       CheckCustom(lambda this: this.record_size == this.record_header_and_name_size + this.data_size,
+                   RuntimeError, "Record size is not valid")),
     "before_name_offset" / Tell,  # NOT IN THE REAL FORMAT - USED FOR BUILDING ONLY
     "name" / FixedUTF16CString(lambda this: this.record_header_and_name_size - this.record_header_size, "name"),
     "after_name_offset" / Tell,  # NOT IN THE REAL FORMAT - USED FOR BUILDING ONLY
-- 
2.43.0


From d727e39fcd59b253ccaa68f5e94b4fd2ef2c7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 7/7] fix: open logs whose process table precedes the event
 index

---
 procmon_parser/stream_logs_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index de1ef40..5c87ffd 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -229,7 +229,7 @@ class PMLStreamReader(PMLStructReader):
 
         self._stream.seek(self.header.events_offsets_array_offset)
         self._events_offsets = EventOffsetsArray(
-            self._stream, self.header.process_table_offset - self.header.events_offsets_array_offset,
+            self._stream, self.header.number_of_events * 5,  # an offset and a flags byte for every event
             self.header.number_of_events)
 
         self._stream.seek(self.header.strings_table_offset)
-- 
2.43.0

