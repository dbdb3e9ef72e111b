From 484e5c134d61560de5ca3c4bee51bf2ce2bd528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 1/9] fix: convert NaN floats to null when allow_nan is off

val == math.nan is never true, so NaN was passed through as NaN.
---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..bd66f5b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From 8763cb40539b2810612e2bb06d8f3752279cdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 2/9] fix: write arrays of Guid, which the reader supports

---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bd66f5b..c4b0667 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -961,6 +961,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "EnumProperty":
                 self.fstring(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
             elif array_type == "ByteProperty":
-- 
2.43.0


From 2a5bcf3a3c10e871474209256db172452d5919a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 3/9] fix: re-encode unknown work transforms from their raw
 byte list

---
 palworld_save_tools/rawdata/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..ee0cd7c 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -248,7 +248,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From d12b38166b3cc746127988c29fe4c4177d8d3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 4/9] fix: write back work elements that were kept as raw bytes

---
 palworld_save_tools/rawdata/work.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index ee0cd7c..6f0e783 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,13 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        # Work that could not be parsed was left as raw bytes
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
-- 
2.43.0


From f6ca8b88622e5508e2b0c6af251531d39149a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 5/9] fix: keep base camp modules with leftover bytes as raw
 bytes

---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..a36774b 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, keeping raw bytes")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 508847bc92834aea7f925c44c2c07b65986b69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 6/9] fix: let --to-json and --from-json override the file
 extension

Both conversions ran when the flag and the extension disagreed.
---
 palworld_save_tools/commands/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..8721a62 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,7 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or (args.filename.endswith(".sav") and not args.from_json):
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +77,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    if args.from_json or (args.filename.endswith(".json") and not args.to_json):
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From 398abe0ca3a334613533dac0eb25e06278ad40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 7/9] fix: strip only the final .json to get the default SAV
 output path

Every '.json' in the path, directories included, was removed, and with
--from-json on another extension the input file itself was the output.
---
 palworld_save_tools/commands/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 8721a62..d0699ff 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -79,7 +79,10 @@ def main():
 
     if args.from_json or (args.filename.endswith(".json") and not args.to_json):
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            if args.filename.endswith(".json"):
+                output_path = args.filename[: -len(".json")]
+            else:
+                output_path = args.filename + ".sav"
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From 3d92e250d8b7d4683508b570d66a224b54b45aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 8/9] fix: refuse truncated strings, GUIDs, raw reads and skips

Reads past the end returned shorter data that was then treated as a
complete field.
---
 palworld_save_tools/archive.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c4b0667..23d7a3a 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -257,7 +257,10 @@ class FArchiveReader:
         return self.data.tell() >= self.size
 
     def read(self, size: int) -> bytes:
-        return self.data.read(size)
+        data = self.data.read(size)
+        if len(data) != size:
+            raise Exception(f"could not read {size} bytes, got {len(data)}")
+        return data
 
     def read_to_end(self) -> bytes:
         return self.data.read(self.size - self.data.tell())
@@ -277,10 +280,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read {size * 2} bytes for string")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read {size} bytes for string")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
@@ -356,16 +365,19 @@ class FArchiveReader:
         return struct.unpack(str(size) + "B", self.data.read(size))
 
     def skip(self, size: int) -> None:
-        self.data.read(size)
+        self.read(size)
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            return self.guid()
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From 9eda320b259379317f1ec73f111c27f6c1c57631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 9/9] fix: read the guild player count as unsigned

A negative count was accepted as an empty player list and written back as 0.
---
 palworld_save_tools/rawdata/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/rawdata/group.py b/palworld_save_tools/rawdata/group.py
index 9995479..bcbe537 100644
--- a/palworld_save_tools/rawdata/group.py
+++ b/palworld_save_tools/rawdata/group.py
@@ -62,7 +62,7 @@ def decode_bytes(
             "admin_player_uid": reader.guid(),
             "players": [],
         }
-        player_count = reader.i32()
+        player_count = reader.u32()
         for _ in range(player_count):
             player = {
                 "player_uid": reader.guid(),
@@ -117,7 +117,7 @@ def encode_bytes(p: dict[str, Any]) -> bytes:
         writer.fstring(p["player_info"]["player_name"])
     if p["group_type"] == "EPalGroupType::Guild":
         writer.guid(p["admin_player_uid"])
-        writer.i32(len(p["players"]))
+        writer.u32(len(p["players"]))
         for i in range(len(p["players"])):
             writer.guid(p["players"][i]["player_uid"])
             writer.i64(p["players"][i]["player_info"]["last_online_real_time"])
-- 
2.43.0

