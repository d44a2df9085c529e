From 587e5101787d8bb4959c77ac2a3841a66b85872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 01/30] fix: keep metadata paths relative with Python 3.12 and
 later

PurePath.__init__ re-parses the raw constructor arguments in Python 3.12,
which made MetadataPath('/a') an absolute path again.
---
 dataladmetadatamodel/metadatapath.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..fe6b534 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,3 +1,4 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
@@ -14,9 +15,10 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
+            relative_path = "/".join(original_path.parts)
             created_path = super().__new__(
                 cls,
-                "/".join(original_path.parts))
+                relative_path)
         else:
             modified_path = "/".join(original_path.parts[1:])
             created_path = super().__new__(cls, modified_path)
@@ -24,9 +26,18 @@ class MetadataPath(PurePosixPath):
                 f"Denied creation of absolute metadata path: {original_path}, "
                 f"created {modified_path} instead. This is considered an error "
                 f"in the calling code.")
+            relative_path = modified_path
 
+        created_path._relative_path = relative_path
         return created_path
 
+    def __init__(self, *args):
+        # Starting with Python 3.12, pathlib parses the arguments of
+        # `__init__` instead of the arguments of `__new__`, make sure
+        # that it gets the relative path that was determined above.
+        if sys.version_info >= (3, 12):
+            super().__init__(self._relative_path)
+
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
         return (
-- 
2.43.0


From 870c9000a422174898284a4d47545ad6cd830cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 02/30] fix: let FileTree.add_extractor_run create metadata for
 new paths

get_metadata() returns None for an unknown path, it does not raise
AttributeError.
---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From b36b5347a8367c6a9e7e980f88ab4fa9469de8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 03/30] fix: support metadata root records without dataset
 level metadata

Purging such a record, or asking it for its dataset level metadata,
failed with an AttributeError.
---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From be0cde6c4a868fe7428de960228fb3406a9ea18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 04/30] fix: compare metadata instance sets with more than one
 configuration

Extractor configurations have no order, sorting them raised a TypeError.
---
 dataladmetadatamodel/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..e079b48 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,13 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        return (
+            len(self.parameter_set) == len(other.parameter_set)
+            and all(
+                configuration in other.parameter_set
+                and self.get_instance_for_configuration(configuration)
+                == other.get_instance_for_configuration(configuration)
+                for configuration in self.parameter_set))
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From 0cd1f00fd460c4bdc31916d298d7034f769ea537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 05/30] fix: copy the content in Text.deepcopy

---
 dataladmetadatamodel/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..3ac7858 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,6 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
         return copied_text
-- 
2.43.0


From 11c34e15f3622db678091602d638020fca552fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 06/30] fix: return the stored text unchanged from git_load_str

Splitting the output into lines and joining the lines again lost trailing
newlines and replaced every other line boundary by a newline.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..cf0a439 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Tuple[str, str]:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,9 +45,15 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
-    return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+    return result.stdout.decode(), result.stderr.decode()
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    stdout, stderr = checked_execute_raw(arguments, stdin_content)
+    return stdout.splitlines(), stderr.splitlines()
 
 
 def git_command_line(repo_dir: str,
@@ -65,8 +71,7 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    return checked_execute_raw(cmd_line)[0]
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From d47ad5d929b818dc00e415205c333f46d6a9a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 07/30] fix: write trees that contain empty sub-trees

An empty tree node has no git object. Its none-location ended up in the
input of git mktree, which failed. Such nodes remain, for example, if the
last dataset of a sub-tree is deleted.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..87a04c3 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,12 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            # Empty sub-trees are not persisted, they have no location
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From 2ea796a76b878a25316aae3855301f48cd8708c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 08/30] fix: treat unmodified objects with a none-reference as
 saved

An object that was persisted as none-reference, e.g. an empty dataset
tree, was considered modified after loading. Writing its container failed
with "modified object got lost", purging it failed as well.
---
 dataladmetadatamodel/mappableobject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..44d7ba5 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -57,9 +57,11 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         # We assume that objects that carry a reference have been
         # saved in the location given by the reference.
+        # That includes None-references, which represent objects that have
+        # no content and therefore are not stored in a realm.
         super().__init__(
             realm
-            if reference is not None and not reference.is_none_reference()
+            if reference is not None
             else None
         )
 
@@ -101,6 +103,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 assert self.reference.class_name == type(self).__name__
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.mapped = True
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From 39753c416525b42f03694d0513a8f90382fd51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 09/30] fix: map the UUIDSet before setting a version list

Otherwise the persisted entries were lost and the object could neither be
read nor written afterwards.
---
 dataladmetadatamodel/uuidset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..1e4173f 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
-- 
2.43.0


From 69f8c547f34249acd8032c10e6211eb8f171e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 10/30] fix: write exactly the hashed bytes of cached blobs

Bytes-blobs could not be flushed, and strings were written in the encoding
of the locale.
---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..894cf33 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -73,8 +73,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            with temp_file_path.open("wb") as f:
+                f.write(blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0


From d11ad5b314fd9966622544ade8d9ddc82cdfcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 11/30] fix: recover from failed file tree writes

If writing a file tree failed, its realm remained cached, i.e. no file tree
could be written to the realm anymore. In addition, metadata objects whose
blobs were never flushed were considered saved.
---
 .../mapper/gitmapper/metadatamapper.py        | 22 ++++++++++++++++---
 dataladmetadatamodel/mtreeproxy.py            | 13 ++++++-----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..af27fdc 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,4 +1,7 @@
-from typing import Dict
+from typing import (
+    Dict,
+    List,
+)
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
@@ -14,6 +17,7 @@ from .gitblobcache import GitBlobCache
 class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
+    cached_metadata: Dict[str, List["Metadata"]] = dict()
 
     @classmethod
     def get_cache(cls, realm: str):
@@ -24,14 +28,25 @@ class MetadataGitMapper(Mapper):
         if cls.get_cache(realm) is not None:
             raise RuntimeError(f"already caching realm: {realm}")
         cls.metadata_caches[realm] = GitBlobCache(realm)
+        cls.cached_metadata[realm] = []
 
     @classmethod
     def flush_realm(cls, realm: str):
         cache = cls.get_cache(realm)
         if cache is None:
             raise RuntimeError(f"realm is not cached: {realm}")
-        cache.flush()
-        del cls.metadata_caches[realm]
+        try:
+            cache.flush()
+        except BaseException:
+            # The blobs are not stored, ensure that the metadata objects
+            # are written again and drop the blobs.
+            for metadata in cls.cached_metadata[realm]:
+                metadata.set_unsaved()
+            cache.cached_objects = []
+            raise
+        finally:
+            del cls.metadata_caches[realm]
+            del cls.cached_metadata[realm]
 
     def map_in_impl(self,
                     metadata: "Metadata",
@@ -104,6 +119,7 @@ class MetadataGitMapper(Mapper):
 
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
+        self.cached_metadata[realm].append(metadata)
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
         add_blob_reference(metadata_blob_location)
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..84472ec 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -73,12 +73,13 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+        finally:
+            if isinstance(self, FileTree):
+                MetadataGitMapper.flush_realm(cache_destination)
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
-- 
2.43.0


From f84e320854f559b97e7a4680d3e8d3d2c62c8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 12/30] fix: do not modify version lists if auto_create is
 False

Looking up a metadata root record added entries to the version lists of
the UUID set.
---
 dataladmetadatamodel/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..86dd00d 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -217,7 +217,10 @@ def get_metadata_root_record_from_top_nodes(
         else:
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
-        if (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
+        if (
+            auto_create is not False
+            and (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths()
+        ):
             root_uuid_version_list.set_versioned_element(
                 primary_data_version=root_dataset_version,
                 time_stamp=str(time.time()),
@@ -263,7 +266,10 @@ def get_metadata_root_record_from_top_nodes(
         metadata_root_record = dataset_tree.get_metadata_root_record(
             dataset_tree_path)
 
-    if (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
+    if (
+        auto_create is not False
+        and (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths()
+    ):
         uuid_version_list.set_versioned_element(
             primary_data_version=primary_data_version,
             time_stamp=str(time.time()),
-- 
2.43.0


From c1f2692557856a7dfb0fca16ca6c603df36cc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 13/30] fix: quote newlines in the names of tree entries

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 87a04c3..c49dd1c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -81,12 +81,14 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        # A newline would terminate the entry in the input of git mktree
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From d17b8b71949ffe7415cac34bf062af1c64759821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 14/30] fix: load the top-level objects independently from each
 other

If only one of them existed, it was reported as missing. With auto_create
it was replaced by an empty object and lost with the next write.
---
 dataladmetadatamodel/common.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 86dd00d..8e4106f 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -70,9 +70,16 @@ def get_top_level_metadata_objects(
             get_uuid_set_location(mapper_family)))
 
     try:
-        return tree_version_list.read_in(), uuid_set.read_in()
+        tree_version_list = tree_version_list.read_in()
     except RuntimeError:
-        return None, None
+        tree_version_list = None
+
+    try:
+        uuid_set = uuid_set.read_in()
+    except RuntimeError:
+        uuid_set = None
+
+    return tree_version_list, uuid_set
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 196134caac05655950b44832c97bd7ada7fa8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 15/30] fix: switch the realm of an object only after it was
 written

If writing to another realm failed, the object could not be loaded from
its original realm anymore.
---
 dataladmetadatamodel/mappableobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 44d7ba5..9d9c449 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -172,13 +172,12 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
+                self.realm = destination_realm
                 return self.reference
 
             logger.debug(
@@ -196,6 +195,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
         assert isinstance(self.reference, Reference), \
-- 
2.43.0


From bbc9fe3d236c506d683065476b5a922a86662ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 16/30] fix: use the default destination in write_out of
 unmapped objects

---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 9d9c449..a944d19 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -151,6 +151,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out: object {self} has no valid " \
                 f"reference: {self.reference}"
 
+            destination_realm = destination_realm or self.realm
             if not self.is_saved_on(destination_realm):
                 raise RuntimeError(
                     f"write_out({self}): modified object got lost "
-- 
2.43.0


From 79a3c70236f558c540b1c0bd0b0f8253e1b7d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 17/30] fix: return a TreeVersionList reference for tree
 version lists

The reference of a written tree version list had the wrong class, so that
the list could not be read in after it was purged.
---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 17baa5fd3a59f4be1a0fea0d0530f088031405dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 18/30] fix: allow to save empty git trees

Saving an empty UUIDSet failed because git mktree does not accept a blank
line.
---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index cf0a439..4dcf71b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -155,10 +155,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -166,10 +166,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 301468f1a7e0ac83bbc30c73a94b60e490e6f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 19/30] fix: write containers of objects that were written on
 their own

If a contained object was modified and then saved on its own, e.g. by
FileTree.unget_metadata(), or as part of another container, its container
was considered saved. Writing the container did nothing, i.e. the
modification was lost.
---
 dataladmetadatamodel/mappableobject.py | 38 +++++++++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py     |  4 +++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index a944d19..208f2e5 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -68,6 +69,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.realm = realm
         self.reference = reference
         self.mapped = reference is None
+        self.saved_sub_object_locations = []
 
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
@@ -86,6 +88,39 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def get_sub_object_locations(self) -> List[Optional[str]]:
+        return [
+            sub_object.reference.location
+            if sub_object.reference is not None
+            else None
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def set_saved_on(self, destination: str):
+        # The persisted form of this object contains the locations of its
+        # sub-objects. If they changed, everything that was saved earlier
+        # is outdated.
+        sub_object_locations = self.get_sub_object_locations()
+        if sub_object_locations != self.saved_sub_object_locations:
+            self.saved_sub_object_locations = sub_object_locations
+            self.set_unsaved()
+        super().set_saved_on(destination)
+
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        Check whether the object and its sub-objects are saved
+        on the given destination. If a sub-object was modified
+        and written on its own, it is saved, but this object
+        has to be written again because it refers to the old
+        location of the sub-object.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or self.get_sub_object_locations()
+            == self.saved_sub_object_locations)
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -125,6 +160,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_object_locations = self.get_sub_object_locations()
 
         else:
 
@@ -208,7 +244,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if not any(map(self.is_saved_on, self.saved_on)):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 84472ec..a56bd9d 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -50,6 +50,10 @@ class MTreeProxy:
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def ensure_mapped(self) -> bool:
         return self.mtree.ensure_mapped()
 
-- 
2.43.0


From 5ad0b978aca522ddf6938f8b5a354d3295184f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 20/30] fix: add metadata root records in version lists to the
 object references

They are referenced in a JSON-string only. If they were not part of a
dataset tree too, git could garbage-collect them.
---
 .../mapper/gitmapper/versionlistmapper.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..fe2aa38 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    GitReference,
+    add_blob_reference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -82,6 +85,13 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values()
         ]
 
+        # Metadata root records are only referenced in the JSON-string,
+        # dataset trees are added to the object references when they
+        # are written.
+        for pdm_assoc in json_object:
+            if pdm_assoc["dataset_tree"]["class_name"] == "MetadataRootRecord":
+                add_blob_reference(pdm_assoc["dataset_tree"]["location"])
+
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
 
-- 
2.43.0


From de7f5d18cb2906b88624aecf28696470590dc404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 21/30] fix: do not call git to flush an empty blob cache

This includes the flush after a refused write to a remote realm, where the
failing git command replaced the original error.
---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index 894cf33..5f27ef5 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -70,6 +70,9 @@ class GitBlobCache:
         def check_hash(hash: str, expected_hash: str):
             assert hash == expected_hash
 
+        if not self.cached_objects:
+            return
+
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-- 
2.43.0


From 129530dd076dc04c9b3722970334855edba30d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 22/30] fix: add cached metadata to the object references when
 it is stored

If the flush of the blob cache failed, the object references contained
objects that do not exist.
---
 .../mapper/gitmapper/metadatamapper.py                 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index af27fdc..64ce6ea 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,6 +1,7 @@
 from typing import (
     Dict,
     List,
+    Tuple,
 )
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
@@ -17,7 +18,7 @@ from .gitblobcache import GitBlobCache
 class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
-    cached_metadata: Dict[str, List["Metadata"]] = dict()
+    cached_metadata: Dict[str, List[Tuple["Metadata", str]]] = dict()
 
     @classmethod
     def get_cache(cls, realm: str):
@@ -37,10 +38,12 @@ class MetadataGitMapper(Mapper):
             raise RuntimeError(f"realm is not cached: {realm}")
         try:
             cache.flush()
+            for _, metadata_blob_location in cls.cached_metadata[realm]:
+                add_blob_reference(metadata_blob_location)
         except BaseException:
             # The blobs are not stored, ensure that the metadata objects
             # are written again and drop the blobs.
-            for metadata in cls.cached_metadata[realm]:
+            for metadata, _ in cls.cached_metadata[realm]:
                 metadata.set_unsaved()
             cache.cached_objects = []
             raise
@@ -119,9 +122,8 @@ class MetadataGitMapper(Mapper):
 
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
-        self.cached_metadata[realm].append(metadata)
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        self.cached_metadata[realm].append((metadata, metadata_blob_location))
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
-- 
2.43.0


From f59afe80f6754ee0b70eaa71ed8a789a776b3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 23/30] fix: do not pass repository paths through a shell

Reading and copying git metadata sources failed, or executed arbitrary
commands, if the repository path contained blanks or shell syntax.
---
 dataladmetadatamodel/metadatasource.py | 27 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..2f0d796 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -18,7 +18,7 @@ import logging
 import subprocess
 from copy import deepcopy
 from pathlib import Path
-from typing import IO, Optional
+from typing import IO, List, Optional
 
 from dataladmetadatamodel import (
     JSONObject,
@@ -93,10 +93,15 @@ class LocalGitMetadataSource(MetadataSource):
             and self.git_repository_path == other.git_repository_path
             and self.object_reference == other.object_reference)
 
+    @staticmethod
+    def _git_command(repository_path: Path, arguments: List[str]) -> List[str]:
+        return ["git", "--git-dir", str(repository_path / ".git")] + arguments
+
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = self._git_command(
+            self.git_repository_path,
+            ["cat-file", "blob", self.object_reference])
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +113,15 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output(
+            self._git_command(
+                self.git_repository_path,
+                ["cat-file", "blob", self.object_reference]))
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            self._git_command(
+                destination_repository,
+                ["hash-object", "-w", "--stdin"]),
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 3921c33d6875eb9d6fa5d85e7e2a8d0b05d1a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 24/30] fix: map version lists and UUID sets in all operations

The length of a version list that was not mapped was zero, and elements
could not be released.
---
 dataladmetadatamodel/uuidset.py     | 1 +
 dataladmetadatamodel/versionlist.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 1e4173f..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -61,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..5dd1a76 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
@@ -187,7 +188,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0


From 37defb0f08d9e7471f34203ceb221ecceaee76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 25/30] fix: restore absent identifiers and versions of
 metadata root records

A record without dataset identifier could not be loaded, an absent version
was restored as the string "None".
---
 .../mapper/gitmapper/metadatarootrecordmapper.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..6318661 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -52,7 +52,9 @@ class MetadataRootRecordGitMapper(Mapper):
 
         MetadataRootRecord.__init__(
             metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
+            UUID(json_object[Strings.DATASET_IDENTIFIER])
+            if json_object[Strings.DATASET_IDENTIFIER] is not None
+            else None,
             json_object[Strings.DATASET_VERSION],
             metadata,
             file_tree,
@@ -88,8 +90,11 @@ class MetadataRootRecordGitMapper(Mapper):
             add_blob_reference(dataset_level_metadata_reference.location)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                str(mrr.dataset_identifier)
+                if mrr.dataset_identifier is not None
+                else None),
+            Strings.DATASET_VERSION: mrr.dataset_version,
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0


From 3ac9ea034a250840fb2e51e597361a252f4d775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 26/30] fix: forget earlier destinations if the location of an
 object changed

---
 dataladmetadatamodel/mappableobject.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 208f2e5..71f5449 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -225,13 +225,21 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
-        self.reference = get_mapper(
+        reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
                 self,
                 destination_realm,
                 force_write)
 
+        # If the location changed, the object that is identified by the
+        # new location does not exist in the realms on which the object
+        # was saved earlier.
+        if self.reference is not None \
+                and self.reference.location != reference.location:
+            self.set_unsaved()
+
+        self.reference = reference
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
-- 
2.43.0


From 235d6fbdb5154db3da6f341af10d538b15ea0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 27/30] fix: persist empty file trees like absent file trees

---
 .../mapper/gitmapper/metadatarootrecordmapper.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 6318661..3efad30 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -77,7 +77,10 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            if not file_tree_reference.is_none_reference():
+            if file_tree_reference.is_none_reference():
+                # Empty file trees are persisted like absent file trees
+                file_tree_reference = Reference.get_none_reference("FileTree")
+            else:
                 add_tree_reference(file_tree_reference.location)
 
         if mrr.dataset_level_metadata is None:
-- 
2.43.0


From da0070fbf47fac3a121c27716f4e091c90952ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 28/30] fix: update sub-object locations when reading a
 none-reference

---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 71f5449..fbd8d5e 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -139,6 +139,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
                 self.mapped = True
+                self.saved_sub_object_locations = []
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From 21e0c6b38a5f06f776a1b773715e75833cfe8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 29/30] fix: do not replace an unreadable object reference
 store

---
 .../mapper/gitmapper/gitbackend/subprocess.py         | 11 +++++++++++
 .../mapper/gitmapper/objectreference.py               | 11 ++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 4dcf71b..801499e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -108,6 +108,17 @@ def git_object_exists_locally(repo_dir: str,
     return execute(cmd_line).returncode == 0
 
 
+def git_reference_exists(repo_dir: str,
+                         ref_name: str) -> bool:
+    cmd_line = git_command_line(
+        repo_dir,
+        "for-each-ref",
+        ["--format=%(refname)", ref_name])
+    result = execute(cmd_line)
+    return (result.returncode == 0
+            and ref_name in result.stdout.decode().splitlines())
+
+
 def git_read_tree_node(repo_dir: str,
                        object_reference: str) -> List[str]:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..a2e6ef9 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -92,7 +92,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 def flush_object_references(realm: Path):
     global cached_object_references
 
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_reference_exists,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -120,6 +123,12 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Do not mistake an unreadable store for a missing store. That
+                # would drop all existing entries from the store.
+                if git_reference_exists(
+                        str(realm),
+                        GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From 30bc1e54661ddd50566382c2b377a044363942c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 30/30] fix: do not mistake unreadable top-level objects for
 missing ones

---
 dataladmetadatamodel/common.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 8e4106f..83ba040 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -54,6 +54,8 @@ def get_top_level_metadata_objects(
     from dataladmetadatamodel.mapper import (
         get_uuid_set_location,
         get_tree_version_list_location)
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_reference_exists)
 
     realm = str(realm)
 
@@ -72,11 +74,23 @@ def get_top_level_metadata_objects(
     try:
         tree_version_list = tree_version_list.read_in()
     except RuntimeError:
+        # An unreadable object is not a missing object
+        if (
+            not Reference.is_remote(realm)
+            and git_reference_exists(realm, tree_version_list.reference.location)
+        ):
+            raise
         tree_version_list = None
 
     try:
         uuid_set = uuid_set.read_in()
     except RuntimeError:
+        # An unreadable object is not a missing object
+        if (
+            not Reference.is_remote(realm)
+            and git_reference_exists(realm, uuid_set.reference.location)
+        ):
+            raise
         uuid_set = None
 
     return tree_version_list, uuid_set
-- 
2.43.0

