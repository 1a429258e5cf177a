From 72bb448ab88a3285c40d0cd55aa2843bbe4c867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 01/46] fix: do not return bytes past the end of a fragmented
 stream

---
 dfir_ntfs/MFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..7c9f815 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1455,7 +1455,7 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > self.file_size - self.current_offset_in_file: # Never read beyond the end of a file.
 			size = self.file_size - self.current_offset_in_file
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
-- 
2.43.0


From a8ebe8ac96adbc350ef69ad526229d9aa0b48cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 02/46] fix: mark a path as orphaned when a parent directory
 has no usable name

---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 7c9f815..b1df7a2 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1241,7 +1241,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except (MasterFileTableException, struct.error):
+							# No usable file name in a parent file record.
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From a62668f149a9bbb9b3d902321ace907bd3075e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 03/46] fix: a damaged file record does not stop the lookup of
 another path

---
 dfir_ntfs/MFT.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index b1df7a2..c71805b 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1117,7 +1117,12 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+				try:
+					parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+				except (MasterFileTableException, struct.error):
+					# Invalid attributes in a file record, this is not a candidate.
+					parent_directory = None
+
 				if file_record.is_in_use() and parent_directory is not None:
 					if not must_be_directory:
 						candidate_parent_directories.append((parent_directory, file_record))
@@ -1156,7 +1161,11 @@ class MasterFileTableParser(object):
 				except IndexError:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				try:
+					parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				except (MasterFileTableException, struct.error):
+					break
+
 				if parent_directory is None:
 					break
 
-- 
2.43.0


From 3616407b62cccfd4488ed620d1d363f1dae0c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:34 +0000
Subject: [PATCH 04/46] fix: find a file by its path through any of several
 equal hard link names

---
 dfir_ntfs/MFT.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index c71805b..2489838 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1076,6 +1076,7 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = [] # A file can have the same name in several parent directories (hard links).
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1085,11 +1086,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1118,12 +1119,15 @@ class MasterFileTableParser(object):
 				pass
 			else:
 				try:
-					parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+					parent_directories = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
 				except (MasterFileTableException, struct.error):
 					# Invalid attributes in a file record, this is not a candidate.
-					parent_directory = None
+					parent_directories = []
+
+				for parent_directory in parent_directories:
+					if not file_record.is_in_use():
+						continue
 
-				if file_record.is_in_use() and parent_directory is not None:
 					if not must_be_directory:
 						candidate_parent_directories.append((parent_directory, file_record))
 					else:
@@ -1162,13 +1166,15 @@ class MasterFileTableParser(object):
 					break
 
 				try:
-					parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+					parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
 				except (MasterFileTableException, struct.error):
 					break
 
-				if parent_directory is None:
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # There are no hard links to a directory.
+
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0


From 138753075640a100c547bb113cfe17f8b2e3aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 05/46] fix: report an out-of-range WSL timestamp as absent

---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..ab41f60 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object (or None, if the timestamp is invalid)."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From 03da4d2bb2dccee7099114c0834578c5f862c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:08 +0000
Subject: [PATCH 06/46] fix: parse a log file in which no NTFS restart area is
 left

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..a93fa1b 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From 4d65c00e4614609854872413368d25078420a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 07/46] fix: follow log records from a multi-page record to the
 wrapped part of the log

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index a93fa1b..124c415 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -951,6 +951,12 @@ class LogFileParser(object):
 				# Try the next log record page.
 				candidate_log_page_number += 1
 				candidate_offset_in_page = self.log_page_data_offset
+
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
-- 
2.43.0


From c6e679cc08591727872fdefcae9ec95d960d3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:07 +0000
Subject: [PATCH 08/46] fix: an incomplete log record does not stop the parsing
 of other log records

---
 dfir_ntfs/LogFile.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 124c415..b101780 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1356,18 +1356,18 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (NotImplementedError, ClientException): # An unknown or an incomplete record.
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1379,11 +1379,17 @@ class LogFileParser(object):
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							try:
+								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							except ClientException:
+								latest_oat_dump = None
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							try:
+								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							except ClientException:
+								latest_an_dump = None
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From 08af5b3fccd3a70a5dbf8509a5ccdc36439cbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:49 +0000
Subject: [PATCH 09/46] fix: use the current log record to find the next one
 after the log file is wrapped

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index b101780..e348063 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -884,7 +884,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
-- 
2.43.0


From 17d2796cd743a762f3f856e597cef214fceac79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:01 +0000
Subject: [PATCH 10/46] fix: do not replace a log record page with its older
 tail copy

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index e348063..b682292 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1223,6 +1223,12 @@ class LogFileParser(object):
 
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
+			if file_offset < self.get_wrapped_log_record_page_number() * self.log_page_size or file_offset > self.file_size or file_offset % self.log_page_size != 0: # Invalid offset.
+				return
+
+			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
+			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # The log record page in place is not older than its tail copy.
+				return
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
-- 
2.43.0


From ccb310d89cd05687f6a59ab346b92b56429eadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 11/46] fix: do not append data of other log records to a log
 record with a missing page

---
 dfir_ntfs/LogFile.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index b682292..c04b041 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1227,7 +1227,7 @@ class LogFileParser(object):
 				return
 
 			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
-			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # The log record page in place is not older than its tail copy.
+			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) >= single_tail_page.get_last_end_lsn(): # The log record page in place is not older than its tail copy.
 				return
 
 			self.file_object.seek(file_offset)
@@ -1307,17 +1307,30 @@ class LogFileParser(object):
 			client_buf = log_record_header.buf[self.record_header_length : ]
 			client_data_length_left = client_data_length - len(client_buf)
 
+			first_log_page_number = log_page_number
+			seqnum = self.lsn_to_seqnum(lsn)
+
 			while client_data_length_left > 0:
 				log_page_number += 1
 
 				# Handle the wrap.
 				if log_page_number * self.log_page_size >= self.file_size:
 					log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum += 1
+
+				if log_page_number == first_log_page_number: # Something is wrong with the length.
+					break
 
 				log_record_page = self.get_log_record_page_by_number(log_page_number)
 				if log_record_page is None: # This page is missing in the current state of the log file.
 					break
 
+				# Check that this page was written along with this record (and that it was not overwritten later).
+				lowest_lsn = self.offset_to_lsn(log_page_number, 0, seqnum)
+				highest_lsn = self.offset_to_lsn(log_page_number, self.log_page_size - 1, seqnum)
+				if not any(page_lsn == lsn or lowest_lsn <= page_lsn <= highest_lsn for page_lsn in (log_record_page.get_last_lsn(), log_record_page.get_last_end_lsn())):
+					break
+
 				if client_data_length_left >= self.log_page_size - self.log_page_data_offset:
 					client_buf_more_data = log_record_page.buf[self.log_page_data_offset : ]
 				else:
-- 
2.43.0


From 2aec8810bbfc7bd1ae4ee02e195a35e03b683e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:06 +0000
Subject: [PATCH 12/46] fix: apply fast log record pages of a partly moved
 multi-page record, ignore invalid page offsets

---
 dfir_ntfs/LogFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c04b041..42746f8 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1251,7 +1251,7 @@ class LogFileParser(object):
 		i = 2
 		while i < 34:
 			fast_page = self.get_log_record_page_by_number(i)
-			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
+			if fast_page is not None and fast_page.get_last_lsn() >= highest_lsn: # A log record may span several pages, these pages can have the same LSN.
 				fast_pages.append(fast_page)
 
 			i += 1
@@ -1260,6 +1260,8 @@ class LogFileParser(object):
 
 		for fast_page in fast_pages:
 			file_offset = fast_page.get_file_offset_2x()
+			if file_offset is None or file_offset < self.get_wrapped_log_record_page_number() * self.log_page_size or file_offset > self.file_size or file_offset % self.log_page_size != 0: # Invalid offset.
+				continue
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(fast_page.buf_protected)
-- 
2.43.0


From 1bebe3ad875e5fae675419510072500d6638ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 13/46] fix: pair the table dumps of the same checkpoint when
 resolving log record targets

---
 dfir_ntfs/LogFile.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 42746f8..317f70c 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1364,12 +1364,9 @@ class LogFileParser(object):
 
 		for client_id in self.lsns_sorted.keys():
 			latest_oat_dump = None
-			old_oat_dump = None
 			latest_an_dump = None
-			old_an_dump = None
 
-			oat_dump_count = 0
-			an_dump_count = 0
+			pending_oat_dump = None # An open attribute table dump without attribute names.
 
 			oat = dict()
 
@@ -1399,31 +1396,24 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-							old_oat_dump = latest_oat_dump
 							try:
-								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+								pending_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
 							except ClientException:
-								latest_oat_dump = None
-							oat_dump_count += 1
+								pending_oat_dump = None
 						elif self.use_dumps and redo_op == AttributeNamesDump:
-							old_an_dump = latest_an_dump
 							try:
 								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
 							except ClientException:
 								latest_an_dump = None
-							an_dump_count += 1
+
+							# Use the dumps from the same checkpoint only.
+							latest_oat_dump = pending_oat_dump
+							pending_oat_dump = None
 
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = latest_oat_dump
+						client_data_decoded.an_dump = latest_an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From 9a0c3a184b19f9840581283d50a21c59bcc57ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:40 +0000
Subject: [PATCH 14/46] fix: do not return bytes past the end of a shadow copy

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..35b4ad9 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1221,7 +1221,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1765,7 +1765,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0


From a8165b50d32c2631fe82f2b7491b94b30b94813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:44 +0000
Subject: [PATCH 15/46] fix: keep overlay sectors of a block which is also the
 target of a forwarder

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 35b4ad9..d321cab 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1115,7 +1115,7 @@ class ShadowParser(object):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if len(new_offsets) == 0 and (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ None ] * 32
 
@@ -1704,7 +1704,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if len(new_offsets) == 0 and (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ (None, None) ] * 32
 
-- 
2.43.0


From b63f88756b9c43089755157177b0c426001a11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:31 +0000
Subject: [PATCH 16/46] fix: stop at a loop in a chain of shadow copy blocks

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index d321cab..494cbbf 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1330,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1346,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1453,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1487,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1511,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1553,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set() # Used to break a loop in the chain of blocks.
+		while curr_offset != 0 and curr_offset not in offsets_seen:
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From b8ad4daf4bd923eb97fd6f9d8efd4686ee07c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:00 +0000
Subject: [PATCH 17/46] fix: do not report a truncated Linux extended attribute

---
 dfir_ntfs/WSL.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index ab41f60..bb603fe 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -62,6 +62,9 @@ class LXXATTR(object):
 			name = block_raw[7 : 7 + name_length]
 			value = block_raw[7 + name_length : 7 + name_length + value_length]
 
+			if len(name) != name_length or len(value) != value_length: # The extended attribute is truncated.
+				break
+
 			yield (name, value)
 
 			if next_block_pos_relative > 0:
-- 
2.43.0


From 97887c1cae0b17b974112a20fa938f471d8f5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:16 +0000
Subject: [PATCH 18/46] fix: refuse a FAT boot sector without a sector count or
 a FAT size with the documented error

---
 dfir_ntfs/addons/FAT.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..15c9a34 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if totsec is None:
+				raise BootSectorException('Invalid number of sectors')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -139,6 +141,9 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
+	if BSBPB.get_bpb_fatsz32() is None:
+		raise BootSectorException('Invalid number of FAT sectors')
+
 	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
-- 
2.43.0


From 31cd8ba6ba8e09d6eb754f0f201d2b26a10c5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 19/46] fix: do not report an empty partial long name in FAT
 directories

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 15c9a34..56a67c6 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1245,7 +1245,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1318,7 +1319,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1450,7 +1452,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None:
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 2e2764ed65c27a421058e9f8dec694acb4efefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:48 +0000
Subject: [PATCH 20/46] fix: list deeply nested FAT directories without
 recursion

---
 dfir_ntfs/addons/FAT.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 56a67c6..04caa0e 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1655,8 +1655,23 @@ class FileSystemParser(object):
 									if bufs_match(new_buf, extra_buf):
 										new_buf += extra_buf
 
-						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + preferred_name, set(stack)):
-							yield item
+						# Do not recurse here, ask the caller to process the subdirectory (before resuming this generator).
+						yield (new_buf, parent_path + PATH_SEPARATOR + preferred_name, set(stack))
+
+		def process_tree(buf, parent_path, stack):
+			generators = [ process_buf(buf, parent_path, stack) ]
+
+			while len(generators) > 0:
+				try:
+					item = next(generators[-1])
+				except StopIteration:
+					generators.pop()
+					continue
+
+				if type(item) is tuple: # This is a subdirectory to be processed.
+					generators.append(process_buf(*item))
+				else:
+					yield item
 
 
 		reallocated_directories = set()
@@ -1684,7 +1699,7 @@ class FileSystemParser(object):
 			stack = set()
 
 
-		for item in process_buf(buf, '', set(stack)): # Pass a new instance of the set ('stack').
+		for item in process_tree(buf, '', set(stack)): # Pass a new instance of the set ('stack').
 			yield item
 
 		orphan_directories = reallocated_directories - visited_directories
@@ -1698,7 +1713,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or buf[32 : 35] != b'.. ' or buf[0 : 2] != b'. ':
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
+				for item in process_tree(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From 54b9f3cd0a14e2a478a2f29e8cfe3204629d88b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 21/46] fix: read exFAT OEM parameters from the sector 9 of the
 boot region

---
 dfir_ntfs/addons/exFAT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..8bb4659 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -468,7 +468,7 @@ class BR(object):
 	def get_oem_guid(self):
 		"""Get, decode and return the GUID defined in the OEM parameters sector (as an UUID object)."""
 
-		offset = self.get_bytespersector() * 10
+		offset = self.get_bytespersector() * 9
 		guid_raw = self.br_buf[offset : offset + 16]
 
 		return uuid.UUID(bytes_le = guid_raw)
@@ -482,7 +482,7 @@ class BR(object):
 		if self.get_oem_guid() != OEM_FLASH_PARAMETERS_GUID:
 			return (None, None, None, None, None, None, None)
 
-		parameters_buf = self.br_buf[self.get_bytespersector() * 10 + 16 : self.get_bytespersector() * 10 + 44]
+		parameters_buf = self.br_buf[self.get_bytespersector() * 9 + 16 : self.get_bytespersector() * 9 + 44]
 		erase_block_size, page_size, spare_sectors, random_access_time, programming_time, read_cycle, write_cycle = struct.unpack('<LLLLLLL', parameters_buf)
 
 		return (erase_block_size, page_size, spare_sectors, random_access_time, programming_time, read_cycle, write_cycle)
-- 
2.43.0


From d5e7e4c63fdcc6532eb2806d92aa53f1525bf94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:15 +0000
Subject: [PATCH 22/46] fix: accept an exFAT cluster heap which starts in the
 second half of the volume

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 8bb4659..5d2daa2 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -567,7 +567,7 @@ class BR(object):
 		if cluster_heap_offset < fat_offset + fat_length * number_of_fats:
 			raise BootRegionException('Invalid cluster heap offset (too small)')
 
-		if cluster_heap_offset > cluster_count * sectors_per_cluster:
+		if cluster_heap_offset > volume_length - cluster_count * sectors_per_cluster:
 			raise BootRegionException('Invalid cluster heap offset (too large)')
 
 		if cluster_count > 0xFFFFFFF5:
-- 
2.43.0


From 0366296a994899b654d8222290d046687fcd0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:09 +0000
Subject: [PATCH 23/46] fix: do not fail on a truncated exFAT allocation bitmap

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 5d2daa2..f50722b 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1041,6 +1041,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From acc9b338b7988804a68d8f668990dcd468bfac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:15 +0000
Subject: [PATCH 24/46] fix: refuse a truncated exFAT boot region with the
 documented error

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index f50722b..ef625d3 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -492,6 +492,9 @@ class BR(object):
 
 		offset = self.get_bytespersector() * 11
 
+		if len(self.br_buf) < offset + self.get_bytespersector():
+			raise BootRegionException('Truncated boot region')
+
 		# We validate only the first three checksums.
 		checksum_1 = self.br_buf[offset : offset + 4]
 		checksum_2 = self.br_buf[offset + 4 : offset + 8]
-- 
2.43.0


From 209f1bfd139954d8960c6519b96fbf38e08ba765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 25/46] fix: validate a truncated exFAT file name too

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index ef625d3..31de436 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -139,7 +139,7 @@ def BuildName(NameEntities, NameLength):
 		return
 
 	if NameLength is not None and len(name) > NameLength: # This name is too long, truncate it.
-		return name[ : NameLength]
+		name = name[ : NameLength]
 
 	for character_code in FORBIDDEN_CHARACTERS:
 		character = chr(character_code)
-- 
2.43.0


From 565a21bd4fa085a3a6b12ea2928d616df8295cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:47 +0000
Subject: [PATCH 26/46] fix: compare reallocated exFAT directories without a
 valid timestamp

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 31de436..475d1c2 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1253,7 +1253,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From 9dc320b63bddd01e86a23441ce4edfcf4d974927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:45 +0000
Subject: [PATCH 27/46] fix: skip an exFAT directory with an invalid size
 instead of stopping the walk

---
 dfir_ntfs/addons/exFAT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 475d1c2..108c9fe 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1268,6 +1268,9 @@ class FileSystemParser(object):
 						if len(new_buf) == 0: # This directory is really empty, skip it.
 							continue
 
+						if len(new_buf) % 512 != 0: # The size of this directory is invalid, skip it.
+							continue
+
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
 							yield item
 
@@ -1297,7 +1300,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 9780f4a05bf2ae05cf6365d6f65ff520bc90fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:13 +0000
Subject: [PATCH 28/46] fix: list deeply nested exFAT directories without
 recursion

---
 dfir_ntfs/addons/exFAT.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 108c9fe..abd16ed 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1271,12 +1271,27 @@ class FileSystemParser(object):
 						if len(new_buf) % 512 != 0: # The size of this directory is invalid, skip it.
 							continue
 
-						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
-							yield item
+						# Do not recurse here, ask the caller to process the subdirectory (before resuming this generator).
+						yield (new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack))
 
 				elif type(dir_entry) is OrphanEntry:
 					yield ExpandPath(parent_path, dir_entry)
 
+		def process_tree(buf, parent_path, stack):
+			generators = [ process_buf(buf, parent_path, stack) ]
+
+			while len(generators) > 0:
+				try:
+					item = next(generators[-1])
+				except StopIteration:
+					generators.pop()
+					continue
+
+				if type(item) is tuple: # This is a subdirectory to be processed.
+					generators.append(process_buf(*item))
+				else:
+					yield item
+
 
 		reallocated_directories = set()
 		reallocated_directories_metadata = dict()
@@ -1287,7 +1302,7 @@ class FileSystemParser(object):
 
 		stack = set([first])
 
-		for item in process_buf(buf, '', set(stack)): # Pass a new instance of the set ('stack').
+		for item in process_tree(buf, '', set(stack)): # Pass a new instance of the set ('stack').
 			yield item
 
 		orphan_directories = reallocated_directories - visited_directories
@@ -1303,7 +1318,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
+				for item in process_tree(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From 1ed6a5748da600bac3765e6c16bd9da48426b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:22 +0000
Subject: [PATCH 29/46] fix: do not fail on a truncated index entry in the file
 table report

---
 ntfs_parser | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..31bc82b 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -213,7 +213,7 @@ def process_mft(source_tag = None):
 			if attr_index_root is not None:
 				for index_entry in attr_index_root.index_entries():
 					attr_file_name_raw = index_entry.get_attribute()
-					if attr_file_name_raw is None:
+					if attr_file_name_raw is None or len(attr_file_name_raw) <= 66:
 						continue
 
 					attr_file_name = Attributes.FileName(attr_file_name_raw)
-- 
2.43.0


From 136754ab0b3f784254b1c49a6d9b2f30d208d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:06 +0000
Subject: [PATCH 30/46] fix: skip a truncated file name attribute when building
 paths

---
 dfir_ntfs/MFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 2489838..0caa1f9 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1191,7 +1191,7 @@ class MasterFileTableParser(object):
 					continue
 
 				attr_value = attr.value_decoded()
-				if type(attr_value) is not Attributes.FileName:
+				if type(attr_value) is not Attributes.FileName or len(attr_value.value) < 66:
 					continue
 
 				file_names.append((attr_value.get_flags(), attr_value.get_file_name(), attr_value.get_parent_directory()))
@@ -1215,7 +1215,7 @@ class MasterFileTableParser(object):
 				continue
 
 			attr_value = attr.value_decoded()
-			if type(attr_value) is not Attributes.FileName:
+			if type(attr_value) is not Attributes.FileName or len(attr_value.value) < 66:
 				continue
 
 			flags = attr_value.get_flags()
-- 
2.43.0


From c099a18059a02ab555a9f5aeec087d3e5d95de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 31/46] fix: stop at a truncated index entry

---
 dfir_ntfs/Attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..ee2b5e3 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -759,7 +759,7 @@ class IndexRoot(GenericAttribute):
 
 		index_header = self.get_index_header()
 		index_entry_pos = 16 + index_header.get_first_index_entry()
-		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos < len(self.value):
+		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos + 16 <= len(self.value):
 			index_entry_raw = self.value[index_entry_pos : ]
 			index_entry = IndexEntry(index_entry_raw)
 
@@ -848,7 +848,7 @@ class IndexBuffer(object):
 
 		index_header = self.get_index_header()
 		index_entry_pos = 24 + index_header.get_first_index_entry()
-		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):
+		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos + 16 <= len(self.index_buffer_raw):
 			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
 			index_entry = IndexEntry(index_entry_raw)
 
-- 
2.43.0


From 33a73b9ddabc8c6e0b117aaec090cedd51fb48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:39 +0000
Subject: [PATCH 32/46] fix: do not fail on other truncated attributes in the
 file table report

---
 ntfs_parser | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 31bc82b..07bede8 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -109,7 +109,7 @@ def process_mft(source_tag = None):
 				attribute_value = attribute.value_decoded()
 
 				if type(attribute_value) is Attributes.StandardInformation:
-					if attr_standard_information is None:
+					if attr_standard_information is None and len(attribute_value.value) >= 32:
 						attr_standard_information = attribute_value
 
 				if type(attribute_value) is Attributes.ObjectID:
@@ -205,7 +205,7 @@ def process_mft(source_tag = None):
 				if type(attribute) is MFT.AttributeRecordResident:
 					attribute_value = attribute.value_decoded()
 
-					if type(attribute_value) is Attributes.IndexRoot:
+					if type(attribute_value) is Attributes.IndexRoot and len(attribute_value.value) >= 32:
 						if attribute_value.get_indexed_attribute_type_code() == Attributes.ATTR_TYPE_FILE_NAME:
 							attr_index_root = attribute_value
 							break
-- 
2.43.0


From 9f95362d025bee5752be7ee9d17b49a089c2e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:36 +0000
Subject: [PATCH 33/46] fix: use the real parent of a name in a directory index
 when it differs

---
 ntfs_parser | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 07bede8..7d5df1f 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -765,8 +765,10 @@ def process_indx():
 
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
+							real_parent_fr_number, real_parent_fr_sequence = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_file_record = mft.get_file_record_by_number(real_parent_fr_number, real_parent_fr_sequence)
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -814,8 +816,10 @@ def process_indx():
 				for attr_file_name in slack_parser.carve():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
+						real_parent_fr_number, real_parent_fr_sequence = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_file_record = mft.get_file_record_by_number(real_parent_fr_number, real_parent_fr_sequence)
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From 29756149c544750c59123e6b9b0b9ea3cbaf10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:22 +0000
Subject: [PATCH 34/46] fix: a directory index with missing data does not stop
 the index report

---
 ntfs_parser | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 7d5df1f..fdd9cc6 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -729,6 +729,14 @@ def process_log():
 def process_indx():
 	global input_file, input_offset, csv_writer
 
+	def readable_index_buffers(i30):
+		try:
+			for index_buffer in i30.index_buffers():
+				yield index_buffer
+		except MFT.MasterFileTableException:
+			# Some data runs or clusters are missing.
+			pass
+
 	fs = MFT.FileSystemParser(input_file, input_offset)
 	mft = MFT.MasterFileTableParser(fs)
 
@@ -753,9 +761,12 @@ def process_indx():
 				continue
 
 			if attribute.name == '$I30' and attribute.type_code == Attributes.ATTR_TYPE_INDEX_ALLOCATION:
-				i30 = attribute.value_decoded(input_file, input_offset, fs.cluster_size)
+				try:
+					i30 = attribute.value_decoded(input_file, input_offset, fs.cluster_size)
+				except MFT.MasterFileTableException:
+					continue
 
-				for index_buffer in i30.index_buffers():
+				for index_buffer in readable_index_buffers(i30):
 					for index_entry in index_buffer.index_entries():
 						attr_file_name_raw = index_entry.get_attribute()
 						if attr_file_name_raw is None or len(attr_file_name_raw) <= 66:
@@ -811,7 +822,12 @@ def process_indx():
 
 						csv_writer.writerow(['Index record', fr_number, fr_directory, file_path, fn_mtime, fn_atime, fn_ctime, fn_etime, file_size])
 
-				slack_list = i30.get_slack()
+				slack_list = []
+				for index_buffer in readable_index_buffers(i30):
+					slack = index_buffer.get_slack()
+					if len(slack) > 8: # Ignore small chunks of index slack data.
+						slack_list.append(slack)
+
 				slack_parser = MFT.SlackSpace(slack_list)
 				for attr_file_name in slack_parser.carve():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
-- 
2.43.0


From 2dca320ace4b5dd5ce76db2b8fa0b84a61142988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:54 +0000
Subject: [PATCH 35/46] fix: do not fail on a short index entry in the log
 report

---
 ntfs_parser | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index fdd9cc6..9613573 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -608,11 +608,14 @@ def process_log():
 
 		if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer or undo_op == LogFile.AddIndexEntryRoot or undo_op == LogFile.AddIndexEntryAllocation or undo_op == LogFile.WriteEndOfIndexBuffer:
 			if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer:
-				index_entry = Attributes.IndexEntry(redo_data)
+				index_entry_buf = redo_data
 			else:
-				index_entry = Attributes.IndexEntry(undo_data)
+				index_entry_buf = undo_data
+
+			attr_value_buf = None
+			if len(index_entry_buf) >= 16:
+				attr_value_buf = Attributes.IndexEntry(index_entry_buf).get_attribute()
 
-			attr_value_buf = index_entry.get_attribute()
 			if attr_value_buf is not None and len(attr_value_buf) > 66:
 				attr_fn = Attributes.FileName(attr_value_buf)
 
-- 
2.43.0


From c933ce9f55a9ee1a7d2b217a9ae64f5115af1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:40 +0000
Subject: [PATCH 36/46] fix: do not fail on a truncated file name in the
 journal and log reports

---
 ntfs_parser | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 9613573..65c7f08 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -308,7 +308,10 @@ def process_usn():
 
 		if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 			r_timestamp = format_timestamp(usn_record.get_timestamp())
-			fr_file_name = usn_record.get_file_name()
+			try:
+				fr_file_name = usn_record.get_file_name()
+			except ValueError: # The file name is truncated.
+				fr_file_name = ''
 		else:
 			r_timestamp = ''
 			fr_file_name = ''
@@ -702,7 +705,11 @@ def process_log():
 
 						if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 							output_lines.append(' Timestamp: {}'.format(format_timestamp(usn_record.get_timestamp())))
-							output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+
+							try:
+								output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							except ValueError: # The file name is truncated.
+								pass
 
 						output_lines.append('')
 
-- 
2.43.0


From 42c13db786d12cdab66779b2f9b2ac8ae3c4ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:26 +0000
Subject: [PATCH 37/46] fix: do not fail on other truncated attributes in the
 log report

---
 ntfs_parser | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 65c7f08..b7b87b5 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -461,7 +461,7 @@ def process_log():
 							continue
 
 						frs_attr_val = frs_attr.value_decoded()
-						if type(frs_attr_val) is Attributes.StandardInformation:
+						if type(frs_attr_val) is Attributes.StandardInformation and len(frs_attr_val.value) >= 36:
 							output_lines.append('$STANDARD_INFORMATION:')
 							output_lines.append(' * M timestamp: {}'.format(format_timestamp(frs_attr_val.get_mtime())))
 							output_lines.append(' * A timestamp: {}'.format(format_timestamp(frs_attr_val.get_atime())))
@@ -470,7 +470,7 @@ def process_log():
 							output_lines.append(' * File attributes: {}'.format(Attributes.ResolveFileAttributes(frs_attr_val.get_file_attributes())))
 							output_lines.append('')
 
-						elif type(frs_attr_val) is Attributes.FileName:
+						elif type(frs_attr_val) is Attributes.FileName and len(frs_attr_val.value) >= 66:
 							output_lines.append('$FILE_NAME:')
 							output_lines.append(' * M timestamp: {}'.format(format_timestamp(frs_attr_val.get_mtime())))
 							output_lines.append(' * A timestamp: {}'.format(format_timestamp(frs_attr_val.get_atime())))
@@ -499,7 +499,7 @@ def process_log():
 
 							output_lines.append('')
 
-						elif type(frs_attr_val) is Attributes.ObjectID:
+						elif type(frs_attr_val) is Attributes.ObjectID and len(frs_attr_val.value) >= 16:
 							output_lines.append('$OBJECT_ID:')
 							output_lines.append(' * GUID: {}'.format(frs_attr_val.get_object_id()))
 							output_lines.append(' * Timestamp: {}'.format(format_timestamp(frs_attr_val.get_timestamp())))
@@ -526,7 +526,7 @@ def process_log():
 				if value_offset > 0 and value_offset % 8 == 0 and value_length > 0:
 					attr_value_buf = attr_buf[value_offset : value_offset + value_length]
 					if len(attr_value_buf) == value_length:
-						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION:
+						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION and value_length >= 36:
 							attr_si = Attributes.StandardInformation(attr_value_buf)
 
 							output_lines.append('$STANDARD_INFORMATION:')
@@ -537,7 +537,7 @@ def process_log():
 							output_lines.append(' * File attributes: {}'.format(Attributes.ResolveFileAttributes(attr_si.get_file_attributes())))
 							output_lines.append('')
 
-						elif type_code == Attributes.ATTR_TYPE_FILE_NAME:
+						elif type_code == Attributes.ATTR_TYPE_FILE_NAME and value_length >= 66:
 							attr_fn = Attributes.FileName(attr_value_buf)
 
 							output_lines.append('$FILE_NAME:')
@@ -568,7 +568,7 @@ def process_log():
 
 							output_lines.append('')
 
-						elif type_code == Attributes.ATTR_TYPE_OBJECT_ID:
+						elif type_code == Attributes.ATTR_TYPE_OBJECT_ID and value_length >= 16:
 							attr_objid = Attributes.ObjectID(attr_value_buf)
 
 							output_lines.append('$OBJECT_ID:')
-- 
2.43.0


From 0bc801a00634150ccb6d561f869b3f4db8a404e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 38/46] fix: use the original log file again after an abandoned
 or failed recovery

---
 dfir_ntfs/LogFile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 317f70c..44c7b01 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1351,6 +1351,16 @@ class LogFileParser(object):
 		If 'recover_log_data' is True, apply a tail log record page or fast log record pages before parsing the log data.
 		"""
 
+		try:
+			for client_data_decoded in self.parse_ntfs_records_internal(recover_log_data):
+				yield client_data_decoded
+		finally: # Also do this when the caller stops early (or on an error).
+			if recover_log_data:
+				self.discard_changes()
+
+	def parse_ntfs_records_internal(self, recover_log_data):
+		"""This method is used internally by the 'parse_ntfs_records' method."""
+
 		if recover_log_data:
 			self.prepare_for_writes()
 
@@ -1417,9 +1427,6 @@ class LogFileParser(object):
 
 					yield client_data_decoded
 
-		if recover_log_data:
-			self.discard_changes()
-
 	def __str__(self):
 		return 'LogFileParser, file size: {}'.format(self.file_size)
 
-- 
2.43.0


From 96b4b1e5b79f9fb1569218d30775130b31dbd074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:42 +0000
Subject: [PATCH 39/46] fix: raise a documented error when the volume
 information is truncated

---
 dfir_ntfs/MFT.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 0caa1f9..390dfcd 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -978,8 +978,11 @@ class MasterFileTableParser(object):
 			if type(attr_decoded) is Attributes.VolumeInformation:
 				found_volume_info = True
 
-				major_version = attr_decoded.get_major_version()
-				minor_version = attr_decoded.get_minor_version()
+				try:
+					major_version = attr_decoded.get_major_version()
+					minor_version = attr_decoded.get_minor_version()
+				except struct.error:
+					raise MasterFileTableException('Invalid volume information (truncated)')
 
 				break
 
-- 
2.43.0


From 048412ef5c527a30c3160808c0f7cb19f34dad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:26 +0000
Subject: [PATCH 40/46] fix: treat a restart page with invalid client records
 as a damaged one

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 44c7b01..3222e99 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -327,6 +327,9 @@ class RestartArea(object):
 		if client_in_use_index != LFS_NO_CLIENT and client_in_use_index >= log_clients:
 			raise RestartAreaException('Invalid client index (in-use): {}'.format(client_in_use_index))
 
+		for client in self.clients(): # Validate the client records.
+			pass
+
 	def get_current_lsn(self):
 		"""Get and return the current log sequence number (LSN)."""
 
@@ -419,6 +422,9 @@ class ClientRecord(object):
 	def __init__(self, client_record_raw):
 		self.buf = client_record_raw
 
+		if len(self.buf) < 32:
+			raise ClientRecordException('Truncated client record')
+
 		client_name_length = self.get_client_name_length()
 		if client_name_length > 128: # Do not cross the 'sizeof' boundary.
 			raise ClientRecordException('Invalid name length: {}'.format(client_name_length))
-- 
2.43.0


From 11d1eb19dc0b17266154db474b35f6f49664de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:03 +0000
Subject: [PATCH 41/46] fix: do not mix up names when a case conversion expands
 a character

---
 dfir_ntfs/MFT.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 390dfcd..f0c8538 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1078,6 +1078,10 @@ class MasterFileTableParser(object):
 		Only allocated files and directories are supported.
 		"""
 
+		def upcase_name(name):
+			# The file system converts the case of each character separately, so a name never gets longer here (for example, "\u00DF" is not the same as "SS").
+			return ''.join(c.upper() if len(c.upper()) == 1 else c for c in name)
+
 		def compare_name_against_file_record(name, file_record, case_sensitive):
 			parent_directories = [] # A file can have the same name in several parent directories (hard links).
 			for attr in file_record.attributes():
@@ -1090,7 +1094,7 @@ class MasterFileTableParser(object):
 
 				if case_sensitive and attr_value.get_file_name() == name:
 					parent_directories.append(attr_value.get_parent_directory())
-				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
+				elif (not case_sensitive) and upcase_name(attr_value.get_file_name()) == upcase_name(name):
 					parent_directories.append(attr_value.get_parent_directory())
 
 			return parent_directories
-- 
2.43.0


From 234a1dcffffc1d2cd6b239c4185d614ca7093ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 42/46] fix: do not fail when an $INDEX_ALLOCATION attribute is
 resident

---
 dfir_ntfs/MFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index f0c8538..a104233 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -507,11 +507,11 @@ class AttributeRecordResident(object):
 	def value_decoded(self):
 		"""Return a decoded value (as an object from the Attributes module)."""
 
-		if self.type_code in Attributes.AttributeTypes.keys():
+		if self.type_code in Attributes.AttributeTypes.keys() and self.type_code != Attributes.ATTR_TYPE_INDEX_ALLOCATION:
 			# A known attribute.
 			return Attributes.AttributeTypes[self.type_code][1](self.value)
 
-		# An unknown attribute.
+		# An unknown attribute (or an invalid one: the $INDEX_ALLOCATION attribute is never resident).
 		return Attributes.GenericAttribute(self.value)
 
 	def __str__(self):
-- 
2.43.0


From a34ffda6893648aa420bfaa9415d583f8d788a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:07 +0000
Subject: [PATCH 43/46] fix: do not leave a half-selected shadow copy readable
 after a failed selection

---
 dfir_ntfs/ShadowCopy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 494cbbf..6f5a681 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -769,7 +769,8 @@ class ShadowParser(object):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
-		# Read the metadata for the shadow copy selected.
+		# Read the metadata for the shadow copy selected (if this fails, no shadow copy remains selected).
+		self.shadow_selected = False
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
 		self.current_previous_bitmap = self.read_previous_bitmap()
@@ -1400,7 +1401,8 @@ class ShadowParserTwoVolumes(ShadowParser):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
-		# Read the metadata for the shadow copy selected.
+		# Read the metadata for the shadow copy selected (if this fails, no shadow copy remains selected).
+		self.shadow_selected = False
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
 		self.current_previous_bitmap = self.read_previous_bitmap()
-- 
2.43.0


From 06ab7d3ca7c2a2d24f531af89eef56dda254308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 44/46] fix: do not resolve targets using a truncated or
 outdated open attribute entry

---
 dfir_ntfs/LogFile.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 3222e99..e9edc5a 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1399,7 +1399,11 @@ class LogFileParser(object):
 							oat_index = client_data_decoded.get_target_attribute()
 
 							try:
-								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								attribute_name_data = client_data_decoded.get_undo_data()
+								if len(attribute_name_data) != client_data_decoded.get_undo_length():
+									raise ClientException('The attribute name is truncated')
+
+								attribute_name = attribute_name_data.decode('utf-16le', errors = 'replace')
 								oat_entry_data = client_data_decoded.get_redo_data()
 
 								if self.oat_version >= 1:
@@ -1407,8 +1411,10 @@ class LogFileParser(object):
 								else:
 									oat_entry = OpenAttributeEntry0(oat_entry_data)
 							except ClientException:
-								# Something is wrong, clear the open attribute table.
+								# Something is wrong, clear the open attribute table (and its older dumps).
 								oat = dict()
+								latest_oat_dump = None
+								pending_oat_dump = None
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-- 
2.43.0


From 94a9842351d0b2c0bba22553b36f3de897237cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 45/46] fix: do not return a truncated name from the attribute
 names dump

---
 dfir_ntfs/LogFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index e9edc5a..6997d91 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1916,6 +1916,9 @@ class AttributeNameEntry(object):
 		if len(self.buf) < 8:
 			raise ClientException('Invalid attribute name entry length: {}'.format(len(self.buf)))
 
+		if len(self.buf) < 4 + self.get_name_length():
+			raise ClientException('Invalid (truncated) attribute name entry length: {}'.format(len(self.buf)))
+
 	def get_index(self):
 		"""Get and return the table index (offset) of a corresponding entry in the open attribute table."""
 
-- 
2.43.0


From 5144e4d4b5f0e1f44bf6e6dcffb6375e9ebbef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:00 +0000
Subject: [PATCH 46/46] fix: cut an exFAT file name at its length in 16-bit
 characters

---
 dfir_ntfs/addons/exFAT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index abd16ed..c5406fa 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -125,6 +125,9 @@ def BuildName(NameEntities, NameLength):
 
 	buf = b''.join(NameEntities)
 
+	if NameLength is not None: # Ignore everything after the name (its length is a number of 16-bit characters).
+		buf = buf[ : NameLength * 2]
+
 	# Remove everything after the first null character (including it).
 	i = 0
 	while i < len(buf):
@@ -138,9 +141,6 @@ def BuildName(NameEntities, NameLength):
 	if len(name) == 0: # This is an invalid name.
 		return
 
-	if NameLength is not None and len(name) > NameLength: # This name is too long, truncate it.
-		name = name[ : NameLength]
-
 	for character_code in FORBIDDEN_CHARACTERS:
 		character = chr(character_code)
 		if character in name: # This is an invalid name.
-- 
2.43.0

