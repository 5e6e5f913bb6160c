From 2951b502a7018df051d83975dc57e53547b16b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 01/37] fix: keep the KVN keyword search of a segment within
 that segment

Keywords absent in one segment but present in a later one made the reader
lose segments or fail (OEM, AEM, TDM and CDM).
---
 ccsds_ndm/ndm_kvn_io.py | 51 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..1d167bf 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -160,6 +160,7 @@ class NdmKvnIo:
 
     _keys: List[str] = []
     _lines: List[List[str]] = []
+    _segment_starts: List[int] = []
 
     def from_path(self, kvn_read_file_path):
         """
@@ -200,6 +201,9 @@ class NdmKvnIo:
         #  Identify data type
         ndm_class = _identify_data_type(self._lines)
 
+        # Find where the segments start
+        self._segment_starts = _find_segment_starts(ndm_class, self._keys)
+
         # Delete unnecessary keywords if necessary
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
@@ -753,9 +757,18 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
+            # a segment ends where the next one starts
+            local_keys, local_lines = keys, lines
+            if subclass.name == "segment":
+                limit = min(
+                    (start for start in self._segment_starts if start > init_index),
+                    default=len(keys),
+                )
+                local_keys, local_lines = keys[:limit], lines[:limit]
+
             # identify subclasses and find limits
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, local_keys, local_lines, init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
@@ -1065,6 +1078,42 @@ def _identify_data_type(kvn_source):
     return data_type
 
 
+def _find_segment_starts(ndm_class, keys):
+    """
+    Finds the start indices of the segments, once the keywords to be deleted are
+    deleted from `keys`.
+
+    Parameters
+    ----------
+    ndm_class
+        NDM class (e.g. `Oem`)
+    keys : list[str]
+        List of keys
+
+    Returns
+    -------
+    segment_starts : list[int]
+        Start indices of the segments
+    """
+    deleted_keys = _deleted_keywords.get(ndm_class, [])
+    segment_starts = []
+    index = 0
+
+    for i, key in enumerate(keys):
+        if key == "META_START":
+            segment_starts.append(index)
+        elif key == "OBJECT" and ndm_class is Cdm:
+            # no start keyword, the segment starts with the comments before OBJECT
+            start = i
+            while keys[start - 1] == "COMMENT":
+                start -= 1
+            segment_starts.append(start)
+        if key not in deleted_keys:
+            index += 1
+
+    return segment_starts
+
+
 def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefix=None):
     """Identifies the segments of the special objects, as defined in
     `_special_identification_classes`.
-- 
2.43.0


From 8fb623e15f9d70e0f10c3e0a0bcd4586bcbffb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 02/37] fix: read all comments before the OEM, AEM and TDM data
 lines in KVN

More than one comment made the reader drop the data lines.
---
 ccsds_ndm/ndm_kvn_io.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1d167bf..5b7e562 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -29,6 +29,7 @@ from ccsds_ndm.models.ndmxml2 import (
     Ndm,
     Oem,
     OemCovarianceMatrixType,
+    OemData,
     OemMetadata,
     Omm,
     Opm,
@@ -110,6 +111,9 @@ _special_processing_classes = [
 This lists the NDM special data types that do not conform to the `Key = Value [unit]` format.
 """
 
+_comment_only_data_classes = [AemData, OemData, TdmData]
+"""List of classes where all comments come before the data lines."""
+
 _special_output_header_classes = [
     AemData,
     AemMetadata,
@@ -641,6 +645,13 @@ class NdmKvnIo:
                 single_elem=root_ndm_elem.single_elem,
             )
 
+            if root_ndm_elem.clazz in _comment_only_data_classes:
+                # the data lines have no comments, claim all the comments before them
+                max_index = root_min_max.max
+                while max_index < len(keys) and keys[max_index] == "COMMENT":
+                    max_index += 1
+                root_min_max = _MinMaxTuple(root_min_max.min, max_index)
+
         # set index to end of keywords
         init_index = root_min_max.max
         max_index = init_index
@@ -1306,7 +1317,7 @@ def __process_comment_lines(tags, start_index, keys, index_list):
     if "COMMENT" in tags:
         if len(tags) == 1:
             # no tags, this is a header sort of class, claim just one COMMENT tag, if available
-            if keys[start_index] == "COMMENT":
+            if start_index < len(keys) and keys[start_index] == "COMMENT":
                 index_list.extend([start_index])
 
         elif len(index_list) > 0:
-- 
2.43.0


From ecf4e043f8b3f17b0960208db1dd2471fe8c476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 03/37] fix: do not create empty objects for blocks absent from
 the KVN file

---
 ccsds_ndm/ndm_kvn_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5b7e562..4f8e771 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -891,8 +891,10 @@ class NdmKvnIo:
         ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
 
         # fill lower level objects
+        has_content = bool(local_lines)
         for subclass in root_ndm_elem.subclass_list:
             subobject = self.__build_object_tree(subclass, full_lines, parser)
+            has_content = has_content or subobject is not None
             if isinstance(getattr(ndm_object, subclass.name), list):
                 if subobject:
                     # this is a list, add the new element
@@ -901,7 +903,8 @@ class NdmKvnIo:
                 # this is not a list, just replace the data
                 setattr(ndm_object, subclass.name, subobject)
 
-        return ndm_object
+        # item and its subclasses have no content, just skip it
+        return ndm_object if has_content else None
 
     __att_types = {
         "QUATERNION": "quaternion_state",
-- 
2.43.0


From f739793558d4d9e4cec3aba333f625e5aab93af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 04/37] fix: read COV_REF_FRAME of the OEM covariance in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 4f8e771..4970361 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -958,8 +958,8 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            datalines = [line[0].split() for line in lines if line[0] not in kw_list]
+            kvnlines = [line for line in lines if line[0] in kw_list]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From d095e2b9cdefe15b2ed454956e282fe4b9598962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 05/37] fix: write the OEM covariance comments with the COMMENT
 keyword in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 4970361..3c5c7cf 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1695,7 +1695,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 2681307be5e4ccab4aa4c43798e38085557b3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 06/37] fix: accept lower case attitude and quaternion types in
 AEM KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3c5c7cf..fe8b64c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -989,7 +989,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -998,7 +998,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1623,7 +1623,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = quat_type.strip().upper().startswith("LAST")
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 360bfc1a4f0f1f27e7a8847dae3f6aea32d2ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 07/37] fix: read and write spin attitude data in AEM KVN

---
 ccsds_ndm/ndm_kvn_io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index fe8b64c..09c4b3d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1022,6 +1022,13 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
@@ -1669,10 +1676,13 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                         )
             else:
                 # process normally - extract values from the rot objects
+                # (single values like the spin angles are their own rot objects)
                 line = [
                     str(getattr(elem, "value", elem))
                     for rot_obj in rot_objects
-                    for elem in rot_obj.values()
+                    for elem in (
+                        [rot_obj["value"]] if "value" in rot_obj else rot_obj.values()
+                    )
                 ]
 
             # add epoch to the beginning
-- 
2.43.0


From 7e6b690401cc4c4f2b0880ffa87a6096b1c02c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 08/37] fix: write quaternion derivatives in AEM KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 09c4b3d..1084e3f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1659,19 +1659,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From 449e9e0327e8ec1f5682bfd04858fca2e3917ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 09/37] fix: separate long epochs from the observation in TDM
 KVN output

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1084e3f..da3b463 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1517,7 +1517,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
 
     return new_line
 
-- 
2.43.0


From 82474232a0623f9a6dac504e50d7c766001412eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 10/37] fix: write angle observations in TDM KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index da3b463..6e13fd6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1695,11 +1695,15 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         item_key, item_value = [
             (k, v)
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-            _fill_str_out_multi_kvn(item_key, vars(ndm_obj)["epoch"], str(item_value))
+            _fill_str_out_multi_kvn(
+                item_key,
+                vars(ndm_obj)["epoch"],
+                str(getattr(item_value, "value", item_value)),
+            )
         ]
 
     if type(ndm_obj) is OemCovarianceMatrixType:
-- 
2.43.0


From 515560b9d0a9ed6cf74ebb8e9ceb026dfa57542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 11/37] fix: apply the schema location given to each XML output
 call

The serializer of the first call was kept with its schema location.
---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..6e13844 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -163,12 +163,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer (schema locations may be different in each call)
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From 1b412c39e362d740a476345f7a49ba20addb2882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 12/37] fix: accept str paths in KVN file output

---
 ccsds_ndm/ndm_kvn_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6e13fd6..3bd489a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -234,7 +235,7 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 9f2c7aa4c821a79d2a01c6b22132e8a434339905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 13/37] fix: read and write the files as UTF-8

The XML output declares UTF-8 but was written with the locale encoding.
---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3bd489a..42eba64 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -181,7 +181,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -235,7 +235,7 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj), encoding="utf-8")
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 6e13844..85e4a28 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -81,7 +81,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -197,7 +197,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From 74be766ce5b5a8f5195e17762ba9e5cd933ad997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 14/37] fix: write the KVN output of a Combined NDM with a
 single message

---
 ccsds_ndm/ndm_kvn_io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 42eba64..df1007e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -44,7 +44,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -257,12 +257,15 @@ class NdmKvnIo:
             Combined NDM input for KVN not implemented in CCSDS NDM Standard.
         """
         # check for multi-NDM file
-        if ndm_obj.Meta.name == Ndm.Meta.name and _is_multi_ndm(ndm_obj):
-            raise NotImplementedError(
-                "NDM data appears to have more than one data set (e.g. two OPMs). "
-                "This sort of NDM output to KVN is not supported. "
-                "Try outputting to multiple files instead."
-            )
+        if ndm_obj.Meta.name == Ndm.Meta.name:
+            if _is_multi_ndm(ndm_obj):
+                raise NotImplementedError(
+                    "NDM data appears to have more than one data set (e.g. two OPMs). "
+                    "This sort of NDM output to KVN is not supported. "
+                    "Try outputting to multiple files instead."
+                )
+            # single element available, strip the ndm
+            ndm_obj = _strip_multi_ndm(ndm_obj)
 
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
-- 
2.43.0


From 55fa49658c8e17aebaa070cda168fc7b78da9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 15/37] fix: read the comments before the user defined
 parameters in KVN

They were read as user defined parameters.
---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index df1007e..dae1959 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1455,8 +1455,12 @@ def _xmlify_list(root_tag, item_list, prefix=None):
 
     if prefix:
         for item in item_list:
-            child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            if item[0] == "COMMENT":
+                child = etree.Element(item[0])
+            else:
+                child = etree.Element(prefix)
+                # only the start of the keyword is the prefix
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From f07af362222e0444d6d0c6c15440ef851a6f46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 16/37] fix: recognise the epoch of a TDM observation only in
 an observation line

Short or empty values raised an IndexError and comments starting with a year
were read as observations.
---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index dae1959..590ec52 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1175,7 +1175,7 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         # datetime.fromisoformat(datestr)
 
         # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
+        if datestr[:4].isnumeric() and datestr[4:5] == "-":
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
@@ -1186,10 +1186,11 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
     elif root_ndm_elem.clazz is TrackingDataObservationType:
 
         # is this a valid date string? take the first element
-        datestr = lines[init_index][1].split()[0]
+        line = lines[init_index]
+        datestr = "".join(line[1].split()[:1]) if len(line) > 1 else ""
 
         # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
+        if line[0] != "COMMENT" and datestr[:4].isnumeric() and datestr[4:5] == "-":
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
-- 
2.43.0


From d0f1b8923bb24559ea055e793cb7e4149369422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 17/37] fix: keep the square brackets of the KVN values that
 cannot have units

Text ending with a square bracket (e.g. an object name) was cut at the first
opening bracket.
---
 ccsds_ndm/ndm_kvn_io.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 590ec52..0fc4a98 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -458,6 +458,8 @@ class NdmKvnIo:
                         # strip square braces
                         unit = text[splitter_index:].replace("[", "").replace("]", "")
                         line.append(unit)
+                        # keep the full text (this may not be a unit)
+                        line.append(text)
 
             # finally, strip each element of spaces
             line = [item.strip() for item in line]
@@ -857,6 +859,14 @@ class NdmKvnIo:
         local_lines = full_lines[root_ndm_elem.min_max.min : root_ndm_elem.min_max.max]
         kw_list = root_ndm_elem.kw_list
 
+        # undo the unit split for the lines that cannot have units
+        local_lines = [
+            line
+            if len(line) < 4 or _has_units(root_ndm_elem.clazz, line[0])
+            else [line[0], line[3]]
+            for line in local_lines
+        ]
+
         if not local_lines and not root_ndm_elem.subclass_list:
             # item has no subclasses and no content, just skip it
             return None
@@ -1244,6 +1254,23 @@ def _is_list(field_name):
         return False
 
 
+def _has_units(clazz, keyword):
+    """
+    Checks whether the value of the `keyword` in the class `clazz` can have units.
+
+    """
+    class_fields = clazz.__dataclass_fields__
+    if "units" in class_fields:
+        return True
+
+    for class_field in class_fields.values():
+        if class_field.metadata.get("name") == keyword:
+            value_class = getattr(class_field.type, "__args__", [class_field.type])[0]
+            return "units" in getattr(value_class, "__dataclass_fields__", {})
+
+    return False
+
+
 def _is_id_or_version(name):
     """
     Checks whether `name` equals to "id" or "version".
-- 
2.43.0


From c8c73ee1c90827456ffc3e032dbb9c705b2e26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 18/37] fix: recognise the tab separated data lines in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 0fc4a98..d397545 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1413,7 +1413,7 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
         # or it has numerical data in between (which is separated by spaces).
         # If latter case holds, delete the numerical data and the rest.
         if diff_list:
-            containing_spaces = any(" " in keys[n] for n in diff_list)
+            containing_spaces = any(len(keys[n].split()) > 1 for n in diff_list)
 
             # find repeating data
             diff_list_keys = [keys[i] for i in diff_list]
-- 
2.43.0


From 26e9c4488e558a89f6e4055f62c988621093b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 19/37] fix: provide from_bytes in the KVN interface

The lower level interfaces are documented to be the same as NdmIo.
---
 ccsds_ndm/ndm_kvn_io.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index d397545..87f8aa7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -186,6 +186,23 @@ class NdmKvnIo:
 
         return self.from_string(kvn_source)
 
+    def from_bytes(self, kvn_source):
+        """
+        Reads the input bytes array to extract contents to an object of correct type.
+
+        Parameters
+        ----------
+        kvn_source : bytes
+            input bytes array containing KVN data
+
+        Returns
+        -------
+        object
+            Object tree from the file contents
+        """
+        # decode bytes and parse as `from_string()`
+        return self.from_string(kvn_source.decode())
+
     def from_string(self, kvn_source):
         """
         Reads the input string to extract contents to an object of correct type.
-- 
2.43.0


From 657491e2171192e7c4589481d2ef31c81c813e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 20/37] fix: refuse the XML input that is not well-formed

The parser recovers from the XML errors, so a truncated Combined NDM file
was read in part without any error. The undeclared namespace prefixes are
still tolerated. White space before the XML declaration is accepted for all
message types, not just for the Combined NDM.
---
 ccsds_ndm/ndm_xml_io.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 85e4a28..7a5ce4c 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -11,6 +11,7 @@ CCSDS Navigation Data Messages XML File I/O.
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
+from xml.parsers import expat
 
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
@@ -121,6 +122,14 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # The parser recovers from errors, make sure that no data is lost
+        # (undeclared namespace prefixes are tolerated)
+        xml_source = xml_source.strip()
+        try:
+            expat.ParserCreate().Parse(xml_source, True)
+        except expat.ExpatError as err:
+            raise ValueError("XML data is not well-formed.") from err
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-- 
2.43.0


From add836fc809f0eea5793e885f51d60c2197d769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 21/37] fix: ignore the XML declaration of the XML data that is
 already decoded

---
 ccsds_ndm/ndm_xml_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 7a5ce4c..c346f0a 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -8,6 +8,7 @@ CCSDS Navigation Data Messages XML File I/O.
 
 """
 
+import re
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
@@ -130,6 +131,10 @@ class NdmXmlIo:
         except expat.ExpatError as err:
             raise ValueError("XML data is not well-formed.") from err
 
+        # The XML declaration (version and encoding) is not relevant any more,
+        # as the data is already decoded. The parser should not act on it.
+        xml_source = re.sub(r"^<\?xml\s.*?\?>", "", xml_source, flags=re.DOTALL)
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-- 
2.43.0


From ecc0a54041aa76b7ba243de7b0d6a8ac6e85bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 22/37] fix: refuse the KVN lines that cannot be placed in the
 message

These lines (e.g. an unknown keyword or surplus columns) were dropped, with
any number of valid lines following them. The XML input refuses them too.
---
 ccsds_ndm/ndm_kvn_io.py | 47 +++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 87f8aa7..3466f54 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -13,7 +13,7 @@ from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
 from pathlib import Path
-from typing import Any, Dict, List
+from typing import Any, Dict, List, Set
 
 from lxml import etree
 from xsdata.formats.dataclass.parsers import XmlParser
@@ -165,6 +165,7 @@ class NdmKvnIo:
 
     _keys: List[str] = []
     _lines: List[List[str]] = []
+    _used_lines: Set[int] = set()
     _segment_starts: List[int] = []
 
     def from_path(self, kvn_read_file_path):
@@ -843,8 +844,14 @@ class NdmKvnIo:
         parser = XmlParser(config=ParserConfig(fail_on_unknown_properties=True))
 
         root_ndm_elem = self.object_tree
+        self._used_lines = set()
         ndm_object = self.__build_object_tree(root_ndm_elem, self._lines, parser)
 
+        # make sure that no line is left out
+        for index, line in enumerate(self._lines):
+            if index not in self._used_lines:
+                raise ValueError(f"Unexpected line in the KVN data: {line[:2]}")
+
         return ndm_object
 
     def __build_object_tree(self, root_ndm_elem, full_lines, parser):
@@ -876,6 +883,15 @@ class NdmKvnIo:
         local_lines = full_lines[root_ndm_elem.min_max.min : root_ndm_elem.min_max.max]
         kw_list = root_ndm_elem.kw_list
 
+        if full_lines is self._lines:
+            # keep track of the lines that belong to this element
+            self._used_lines.update(
+                index
+                for index, line in enumerate(local_lines, root_ndm_elem.min_max.min)
+                if root_ndm_elem.clazz in _special_processing_classes
+                or line[0] in kw_list
+            )
+
         # undo the unit split for the lines that cannot have units
         local_lines = [
             line
@@ -984,7 +1000,7 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is StateVectorAccType:
             # parse StateVectorAccType type data
-            synth_lines = list(zip(kw_list, lines[0][0].split()))
+            synth_lines = _zip_columns(kw_list, lines[0][0].split())
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
@@ -993,13 +1009,13 @@ class NdmKvnIo:
             kvnlines = [line for line in lines if line[0] in kw_list]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
-            synth_lines = list(zip(kw_list[3:], data_list))
+            synth_lines = _zip_columns(kw_list[3:], data_list)
             kvnlines.extend(synth_lines)
             xml_data = _xmlify_list(root_ndm_elem.name, kvnlines)
 
         elif root_ndm_elem.clazz is TrackingDataObservationType:
             # Tracking data, parse the single line
-            synth_lines = list(zip(["EPOCH", lines[0][0]], lines[0][1].split()))
+            synth_lines = _zip_columns(["EPOCH", lines[0][0]], lines[0][1].split())
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
         else:
@@ -1078,8 +1094,8 @@ class NdmKvnIo:
         """Convert AttitudeSegmentType data to XML."""
 
         # Merge data with template
-        synth_lines = list(
-            zip(root_ndm_elem.special_data["template"], lines[0][0].split())
+        synth_lines = _zip_columns(
+            root_ndm_elem.special_data["template"], lines[0][0].split()
         )
 
         # identify the line
@@ -1166,6 +1182,16 @@ def _find_segment_starts(ndm_class, keys):
     return segment_starts
 
 
+def _zip_columns(keywords, columns):
+    """
+    Matches the columns of a data line with the keywords, makes sure that
+    there are no columns left.
+    """
+    if len(columns) > len(keywords):
+        raise ValueError(f"Too many columns in the KVN data: {columns}")
+    return list(zip(keywords, columns))
+
+
 def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefix=None):
     """Identifies the segments of the special objects, as defined in
     `_special_identification_classes`.
@@ -1202,7 +1228,11 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         # datetime.fromisoformat(datestr)
 
         # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4:5] == "-":
+        if (
+            len(lines[init_index]) == 1
+            and datestr[:4].isnumeric()
+            and datestr[4:5] == "-"
+        ):
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
@@ -1246,6 +1276,9 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
             while found_data:
                 try:
                     float(lines[i][0].split()[0])
+                    if len(lines[i]) > 1:
+                        # this is a keyword, not a data line
+                        break
                     i += 1
                 except (ValueError, IndexError):
                     found_data = False
-- 
2.43.0


From 0a1d2987c41765d0d7f04a37070a853e1d41985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 23/37] fix: start a new KVN segment at its start keyword only

A repeated metadata keyword split a segment into two incomplete ones.
---
 ccsds_ndm/ndm_kvn_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3466f54..bbaf040 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -795,6 +795,11 @@ class NdmKvnIo:
             # a segment ends where the next one starts
             local_keys, local_lines = keys, lines
             if subclass.name == "segment":
+                if init_index not in self._segment_starts:
+                    # list is completed, no more segments
+                    max_index = last_max_index
+                    break
+
                 limit = min(
                     (start for start in self._segment_starts if start > init_index),
                     default=len(keys),
-- 
2.43.0


From 2ee2c689ed63ba27add2ae7c766e678208f1d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 24/37] fix: refuse the TDM observations without a value in KVN

The keyword of these lines was lost.
---
 ccsds_ndm/ndm_kvn_io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index bbaf040..6badaa4 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1249,10 +1249,16 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
 
         # is this a valid date string? take the first element
         line = lines[init_index]
-        datestr = "".join(line[1].split()[:1]) if len(line) > 1 else ""
+        columns = line[1].split() if len(line) > 1 else []
+        datestr = "".join(columns[:1])
 
         # can be of format "2007-075T16:50:01" or normal ISO string
-        if line[0] != "COMMENT" and datestr[:4].isnumeric() and datestr[4:5] == "-":
+        if (
+            line[0] != "COMMENT"
+            and len(columns) > 1
+            and datestr[:4].isnumeric()
+            and datestr[4:5] == "-"
+        ):
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
-- 
2.43.0


From 9ada632ce7c51aebed2bfd6491d163b2047348f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 25/37] fix: refuse to write incomplete values and data lines
 in KVN

A missing value moved the values after it into the wrong columns, or was
written as None. A missing quaternion type was taken from another segment, and
only the first of several values of a single observation was written.
---
 ccsds_ndm/ndm_kvn_io.py | 113 ++++++++++++++++++++++++++--------------
 1 file changed, 74 insertions(+), 39 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6badaa4..ab8f4fd 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -379,12 +379,12 @@ class NdmKvnIo:
                 # with units
                 out_str.append(
                     _fill_str_out_kvn(
-                        key_used, str(ndm_object.value), ndm_object.units.value
+                        key_used, ndm_object.value, ndm_object.units.value
                     )
                 )
             else:
                 # without units
-                out_str.append(_fill_str_out_kvn(key_used, str(ndm_object.value)))
+                out_str.append(_fill_str_out_kvn(key_used, ndm_object.value))
         elif ("value" and "name") in dir(ndm_object):
             # enum type
             out_str.append(_fill_str_out_kvn(key, str(ndm_object.value)))
@@ -1583,6 +1583,9 @@ def _fill_str_out_kvn(key, value, unit=None):
         'key = value' pair or 'key = value [unit]' triplet
 
     """
+    if value is None:
+        raise ValueError(f"Value of {key.upper()} is missing.")
+
     if unit:
         # standard 'key = value [unit]' triplet
         new_line = f"{key.upper():<20} = {str(value):<18}[{unit}]"
@@ -1593,6 +1596,16 @@ def _fill_str_out_kvn(key, value, unit=None):
     return new_line
 
 
+def _to_columns(values):
+    """
+    Converts the values in a data line to strings, makes sure that there are
+    no missing values.
+    """
+    if any(value is None for value in values):
+        raise ValueError(f"Missing values in the data line: {values}")
+    return [str(value) for value in values]
+
+
 def _fill_str_out_multi_kvn(key, value1, value2):
     """
     Fills a line in standard 'key = value value' triplet format.
@@ -1701,15 +1714,21 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
     if type(ndm_obj) is StateVectorAccType:
         # fill all elements ("value" if something like PositionType or just its str value)
-        line = [
-            str(getattr(elem, "value", elem)) for elem in vars(ndm_obj).values() if elem
-        ]
-        return [_fill_out_single_line(line)]
+        line = [getattr(elem, "value", elem) for elem in vars(ndm_obj).values()]
+
+        # accelerations are optional
+        if line[-3:] == [None, None, None]:
+            line = line[:-3]
+
+        return [_fill_out_single_line(_to_columns(line))]
 
     if type(ndm_obj) is AttitudeStateType:
         # find element with valid data
         att_obj = [att for att in vars(ndm_obj).values() if att]
 
+        if len(att_obj) > 1:
+            raise ValueError("More than one attitude type in an attitude state.")
+
         if att_obj:
             quaternion = True if str(att_obj[0]).startswith("Quaternion") else False
 
@@ -1722,60 +1741,65 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
             if quaternion:
                 # process with quaternion, order is important
 
-                # find quaternion type line (start from the end)
+                # find quaternion type line of the segment (start from the end)
                 quat_type = next(
-                    x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
+                    x
+                    for x in reversed(out_str)
+                    if x.startswith("QUATERNION_TYPE") or x == "META_START"
                 ).split("=")[-1]
 
+                if quat_type == "META_START":
+                    raise ValueError("Quaternion type is missing in the metadata.")
+
                 quat_last = quat_type.strip().upper().startswith("LAST")
 
                 if quat_last:
                     line = [
-                        str(rot_objects[0]["q1"]),
-                        str(rot_objects[0]["q2"]),
-                        str(rot_objects[0]["q3"]),
-                        str(rot_objects[0]["qc"]),
+                        rot_objects[0]["q1"],
+                        rot_objects[0]["q2"],
+                        rot_objects[0]["q3"],
+                        rot_objects[0]["qc"],
                     ]
                 else:
                     line = [
-                        str(rot_objects[0]["qc"]),
-                        str(rot_objects[0]["q1"]),
-                        str(rot_objects[0]["q2"]),
-                        str(rot_objects[0]["q3"]),
+                        rot_objects[0]["qc"],
+                        rot_objects[0]["q1"],
+                        rot_objects[0]["q2"],
+                        rot_objects[0]["q3"],
                     ]
 
                 if isinstance(att_obj[0], QuaternionEulerRateType):
                     line.extend(
                         [
-                            str(rot_objects[1]["rotation1"].value),
-                            str(rot_objects[1]["rotation2"].value),
-                            str(rot_objects[1]["rotation3"].value),
+                            rot_objects[1]["rotation1"].value,
+                            rot_objects[1]["rotation2"].value,
+                            rot_objects[1]["rotation3"].value,
                         ]
                     )
                 elif isinstance(att_obj[0], QuaternionDerivativeType):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[1]["q1_dot"].value),
-                                str(rot_objects[1]["q2_dot"].value),
-                                str(rot_objects[1]["q3_dot"].value),
-                                str(rot_objects[1]["qc_dot"].value),
+                                rot_objects[1]["q1_dot"].value,
+                                rot_objects[1]["q2_dot"].value,
+                                rot_objects[1]["q3_dot"].value,
+                                rot_objects[1]["qc_dot"].value,
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[1]["qc_dot"].value),
-                                str(rot_objects[1]["q1_dot"].value),
-                                str(rot_objects[1]["q2_dot"].value),
-                                str(rot_objects[1]["q3_dot"].value),
+                                rot_objects[1]["qc_dot"].value,
+                                rot_objects[1]["q1_dot"].value,
+                                rot_objects[1]["q2_dot"].value,
+                                rot_objects[1]["q3_dot"].value,
                             ]
                         )
             else:
                 # process normally - extract values from the rot objects
                 # (single values like the spin angles are their own rot objects)
                 line = [
-                    str(getattr(elem, "value", elem))
+                    getattr(elem, "value", elem)
                     for rot_obj in rot_objects
                     for elem in (
                         [rot_obj["value"]] if "value" in rot_obj else rot_obj.values()
@@ -1784,22 +1808,31 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
             # add epoch to the beginning
             line.insert(0, vars(att_obj[0])["epoch"])
-            return [_fill_out_single_line(line)]
+            return [_fill_out_single_line(_to_columns(line))]
 
     if type(ndm_obj) is TrackingDataObservationType:
         # find element with data
 
-        item_key, item_value = [
+        items = [
             (k, v)
             for k, v in vars(ndm_obj).items()
             if v is not None and k != "epoch"
-        ][0]
+        ]
+
+        if len(items) != 1:
+            raise ValueError("A tracking data observation should have a single value.")
+
+        item_key, item_value = items[0]
 
         return [
             _fill_str_out_multi_kvn(
                 item_key,
-                vars(ndm_obj)["epoch"],
-                str(getattr(item_value, "value", item_value)),
+                *_to_columns(
+                    [
+                        vars(ndm_obj)["epoch"],
+                        getattr(item_value, "value", item_value),
+                    ]
+                ),
             )
         ]
 
@@ -1817,17 +1850,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
         max_elems = 1
         covar_data_iter = iter(
-            [
-                getattr(elem, "value")
-                for elem in vars(ndm_obj).values()
-                if hasattr(elem, "value")
-            ]
+            _to_columns(
+                [
+                    getattr(elem, "value", None)
+                    for key, elem in vars(ndm_obj).items()
+                    if key not in ["comment", "epoch", "cov_ref_frame"]
+                ]
+            )
         )
         while True:
             try:
                 lines.append(
                     _fill_out_single_line(
-                        [str(next(covar_data_iter)) for i in range(max_elems)]
+                        [next(covar_data_iter) for i in range(max_elems)]
                     )
                 )
                 max_elems += 1
-- 
2.43.0


From 834e75baef750a7acbbc28af5948461cf2df0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:04 +0000
Subject: [PATCH 26/37] fix: do not write text with line breaks as additional
 KVN lines

These could not be read back, or were read as other keywords. Comments are
written line by line, other values are refused.
---
 ccsds_ndm/ndm_kvn_io.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ab8f4fd..49b66ca 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -288,6 +288,11 @@ class NdmKvnIo:
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
 
+        # a value with a line break would be read as another line
+        for line in out_str:
+            if "\n" in line or "\r" in line:
+                raise ValueError(f"Line breaks cannot be written in KVN: {line!r}")
+
         # join lines to a single large str
         kvn_string = "\n".join(out_str)
 
@@ -357,7 +362,13 @@ class NdmKvnIo:
             out_str.append(_fill_str_out_kvn(key, ndm_object))
         elif key == "comment":
             # comment line
-            out_str.extend([_fill_str_out_kvn(key, comment) for comment in ndm_object])
+            out_str.extend(
+                [
+                    _fill_str_out_kvn(key, line)
+                    for comment in ndm_object
+                    for line in _split_comment(comment)
+                ]
+            )
         elif (
             getattr(ndm_object, "__dict__", False)
             and ("value" and "units") in vars(ndm_object).keys()
@@ -1596,6 +1607,13 @@ def _fill_str_out_kvn(key, value, unit=None):
     return new_line
 
 
+def _split_comment(comment):
+    """
+    Splits the comment with line breaks into single lines.
+    """
+    return comment.replace("\r\n", "\n").replace("\r", "\n").split("\n")
+
+
 def _to_columns(values):
     """
     Converts the values in a data line to strings, makes sure that there are
@@ -1840,7 +1858,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         lines = []
         # comment line
         lines.extend(
-            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+            [
+                _fill_str_out_kvn("comment", line)
+                for comment in ndm_obj.comment
+                for line in _split_comment(comment)
+            ]
         )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
-- 
2.43.0


From a24eca89d65757bdb9c5d223b207d524676afeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:07 +0000
Subject: [PATCH 27/37] fix: keep the target file when the text cannot be
 encoded

---
 ccsds_ndm/ndm_kvn_io.py | 3 ++-
 ccsds_ndm/ndm_xml_io.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 49b66ca..c571ee7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -253,7 +253,8 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj), encoding="utf-8")
+        kvn_data = self.to_string(ndm_obj).encode("utf-8")
+        Path(kvn_write_file_path).write_bytes(kvn_data)
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index c346f0a..e20e5d3 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -211,7 +211,8 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
+        xml_data = xml_txt.encode("utf-8")
+        Path(xml_write_file_path).write_bytes(xml_data)
 
     def __init_parser(self):
         """
-- 
2.43.0


From d4fbf9aad06defeeacb40d88442968501df94793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:15 +0000
Subject: [PATCH 28/37] fix: refuse to write the KVN data line values that are
 not single columns

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c571ee7..dd04625 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1618,11 +1618,14 @@ def _split_comment(comment):
 def _to_columns(values):
     """
     Converts the values in a data line to strings, makes sure that there are
-    no missing values.
+    no missing values and that each value is a single column.
     """
     if any(value is None for value in values):
         raise ValueError(f"Missing values in the data line: {values}")
-    return [str(value) for value in values]
+    columns = [str(value) for value in values]
+    if any(column.split() != [column] for column in columns):
+        raise ValueError(f"Values with white space in the data line: {columns}")
+    return columns
 
 
 def _fill_str_out_multi_kvn(key, value1, value2):
-- 
2.43.0


From c6541a287fcead0357ac98dc7211c12ca7b7cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:45 +0000
Subject: [PATCH 29/37] fix: refuse to write user defined parameter names with
 an equals sign in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index dd04625..15823c3 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1598,6 +1598,10 @@ def _fill_str_out_kvn(key, value, unit=None):
     if value is None:
         raise ValueError(f"Value of {key.upper()} is missing.")
 
+    if "=" in key:
+        # the rest of the name would be read as the value
+        raise ValueError(f"Keyword cannot be written in KVN: {key.upper()}")
+
     if unit:
         # standard 'key = value [unit]' triplet
         new_line = f"{key.upper():<20} = {str(value):<18}[{unit}]"
-- 
2.43.0


From f8efa27c27cbc11a627beaca67209fb06794560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 30/37] fix: keep the units given in a TDM observation in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 15823c3..19adc92 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1033,6 +1033,8 @@ class NdmKvnIo:
         elif root_ndm_elem.clazz is TrackingDataObservationType:
             # Tracking data, parse the single line
             synth_lines = _zip_columns(["EPOCH", lines[0][0]], lines[0][1].split())
+            # add units if available
+            synth_lines[-1] += tuple(lines[0][2:3])
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
         else:
-- 
2.43.0


From 01d06c22d13586528230bed0bc3bc2c145b9368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 31/37] fix: find the attitude types of an AEM segment within
 that segment in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 19adc92..46c0a0c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1051,19 +1051,22 @@ class NdmKvnIo:
 
         att_states = root_ndm_elem.subclass_list[1].subclass_list
 
-        # Find the Attitude Type line within the segment
-        att_type_line_index = self._keys.index(
-            "ATTITUDE_TYPE", root_ndm_elem.min_max.max
+        # the segment ends where the next one starts
+        start = root_ndm_elem.min_max.max
+        limit = min(
+            (index for index in self._segment_starts if index > start),
+            default=len(self._keys),
         )
+
+        # Find the Attitude Type line within the segment
+        att_type_line_index = self._keys.index("ATTITUDE_TYPE", start, limit)
         att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
 
         if att_type_key.startswith("QUATERNION"):
-            q_type_line_index = self._keys.index(
-                "QUATERNION_TYPE", root_ndm_elem.min_max.max
-            )
+            q_type_line_index = self._keys.index("QUATERNION_TYPE", start, limit)
             q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
@@ -1078,9 +1081,7 @@ class NdmKvnIo:
                     kw_template.extend(["Q1_DOT", "Q2_DOT", "Q3_DOT", "QC_DOT"])
 
         if att_type_key.startswith("EULER") or att_type_key.endswith("RATE"):
-            eu_type_line_index = self._keys.index(
-                "EULER_ROT_SEQ", root_ndm_elem.min_max.max
-            )
+            eu_type_line_index = self._keys.index("EULER_ROT_SEQ", start, limit)
             eu_type_key = self._lines[eu_type_line_index][1]
 
             if att_type_key.startswith("EULER"):
-- 
2.43.0


From a70fde252113b0bef6372a401aa07905e47a1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 32/37] fix: refuse a KVN structure keyword that has a value
 instead of losing the value

---
 ccsds_ndm/ndm_kvn_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 46c0a0c..a5cac61 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -230,8 +230,13 @@ class NdmKvnIo:
         # Delete unnecessary keywords if necessary
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
-            self._keys = [key for key in self._keys if key not in deleted_keys]
-            self._lines = [line for line in self._lines if line[0] not in deleted_keys]
+            # (a deleted keyword has no value, otherwise the value would be lost)
+            self._lines = [
+                line
+                for line in self._lines
+                if line[0] not in deleted_keys or any(line[1:])
+            ]
+            self._keys = [line[0] for line in self._lines]
 
         # Init object map
         self._init_object_map(ndm_class)
-- 
2.43.0


From ef33b107f37e49327d4c8e9352273dc52134d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:43 +0000
Subject: [PATCH 33/37] fix: refuse XML data with entities of other files,
 their text was lost

---
 ccsds_ndm/ndm_xml_io.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index e20e5d3..6fd97a7 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -123,18 +123,21 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # The XML declaration (version and encoding) is not relevant, as the data is
+        # already decoded. The parser should not act on it.
+        xml_source = xml_source.strip()
+        match = re.match(r"\ufeff?(<\?xml\s.*?\?>)?", xml_source, flags=re.DOTALL)
+        declaration = match.group(1) or ""
+        xml_source = xml_source[match.end() :]
+
         # The parser recovers from errors, make sure that no data is lost
         # (undeclared namespace prefixes are tolerated)
-        xml_source = xml_source.strip()
         try:
-            expat.ParserCreate().Parse(xml_source, True)
+            _check_well_formed(declaration + "<ndm/>")
+            _check_well_formed('<?xml version="1.0" standalone="yes"?>' + xml_source)
         except expat.ExpatError as err:
             raise ValueError("XML data is not well-formed.") from err
 
-        # The XML declaration (version and encoding) is not relevant any more,
-        # as the data is already decoded. The parser should not act on it.
-        xml_source = re.sub(r"^<\?xml\s.*?\?>", "", xml_source, flags=re.DOTALL)
-
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
@@ -242,6 +245,16 @@ class NdmXmlIo:
         self.serializer = XmlSerializer(config=config)
 
 
+def _check_well_formed(xml_source):
+    """
+    Makes sure that the XML data is well-formed and complete: the text of an entity
+    that is declared in another file would be lost, as other files are not read.
+    """
+    parser = expat.ParserCreate()
+    parser.ExternalEntityRefHandler = lambda *args: 0
+    parser.Parse(xml_source, True)
+
+
 def _identify_data_type(xml_source):
     """
     Identify the XML data type.
-- 
2.43.0


From 69e9d3f3ef022861446331f5c3c26d266011f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 34/37] fix: read the text after a processing instruction
 within an XML value

---
 ccsds_ndm/ndm_xml_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 6fd97a7..21d0620 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -14,6 +14,7 @@ from enum import Enum
 from pathlib import Path
 from xml.parsers import expat
 
+from lxml import etree
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
 from xsdata.formats.dataclass.serializers import XmlSerializer
@@ -141,7 +142,9 @@ class NdmXmlIo:
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-        ndm = self.parser.from_string(xml_source)
+        # Processing instructions are not relevant, but would cut off the text
+        xml_parser = etree.XMLParser(recover=True, remove_comments=True, remove_pis=True)
+        ndm = self.parser.parse(etree.fromstring(xml_source, xml_parser))
 
         # if the file is NDM, downcast the elements to their respective subclasses
         if isinstance(ndm, Ndm):
-- 
2.43.0


From c9445b9ce729ddb6c99b6988e182e7d47a2e901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:55 +0000
Subject: [PATCH 35/37] fix: read XML texts of any length instead of cutting
 them off

---
 ccsds_ndm/ndm_xml_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 21d0620..854d982 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -143,7 +143,10 @@ class NdmXmlIo:
         data_type, ndm_combi = _identify_data_type(xml_source)
 
         # Processing instructions are not relevant, but would cut off the text
-        xml_parser = etree.XMLParser(recover=True, remove_comments=True, remove_pis=True)
+        # (and texts of any length are read, otherwise they would be cut off as well)
+        xml_parser = etree.XMLParser(
+            recover=True, remove_comments=True, remove_pis=True, huge_tree=True
+        )
         ndm = self.parser.parse(etree.fromstring(xml_source, xml_parser))
 
         # if the file is NDM, downcast the elements to their respective subclasses
-- 
2.43.0


From 964e6ba83b443497a6eb8da99844449658155687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:46 +0000
Subject: [PATCH 36/37] fix: read KVN texts of any length instead of losing
 them

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a5cac61..9a672b1 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -957,7 +957,9 @@ class NdmKvnIo:
                     # process normally (with or without prefix)
                     xml_data = _xmlify_list(root_ndm_elem.name, local_lines, prefix)
 
-        ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
+        # texts of any length are read, otherwise they would be cut off
+        xml_tree = etree.fromstring(xml_data, etree.XMLParser(huge_tree=True))
+        ndm_object = parser.parse(xml_tree, root_ndm_elem.clazz)
 
         # fill lower level objects
         has_content = bool(local_lines)
-- 
2.43.0


From c7bb92a388d7ce312fbd3d9a24b86b46fb4eb201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:50 +0000
Subject: [PATCH 37/37] fix: refuse a foreign keyword between the lines of a
 covariance matrix

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 9a672b1..b4c048d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1029,7 +1029,12 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if line[0] not in kw_list]
+            datalines = [line for line in lines if line[0] not in kw_list]
+            for line in datalines:
+                if len(line) > 1:
+                    # another keyword, not a data line
+                    raise ValueError(f"Unexpected line in the KVN data: {line[:2]}")
+            datalines = [line[0].split() for line in datalines]
             kvnlines = [line for line in lines if line[0] in kw_list]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
-- 
2.43.0

