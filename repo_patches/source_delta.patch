From 25968e6384327f4a49b005278daf3e6cd8a2558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 01/52] fix: peeking at all remaining characters dropped the
 last buffered one

---
 vanillaplusjs/build/ioutil.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..465cba4 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -80,6 +80,11 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
-- 
2.43.0


From db112767b382bbd8688d942a68c5d1e7f510c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 02/52] fix: preprocessed text streams lost or hid text around
 CRLF pairs

---
 vanillaplusjs/build/ioutil.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 465cba4..1f9e96f 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -122,7 +122,8 @@ class PreprocessedTextIO:
             return None
         if len(res) == n and res[-1] == "\r":
             if self.fp.peek(1) == "\n":
-                res = res[:-1]
+                # consume both; the pair is replaced with one newline below
+                res += self.fp.read(1)
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -140,11 +141,8 @@ class PreprocessedTextIO:
         res = self.fp.peek(n if n < 1 else n + 1)
         if res is None:
             return None
-        if n >= 1 and len(res) == n + 1:
-            if res[-2:] == "\r\n":
-                res = res[:-2]
-            else:
-                res = res[:-1]
+        if n >= 1 and len(res) == n + 1 and res[-2:] != "\r\n":
+            res = res[:-1]
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -186,11 +184,12 @@ class PreprocessedTextIO:
 
         attempted_peek_length = n
         while True:
-            old_actual_peek_length = len(res)
-            missing_characters = n - old_actual_peek_length
+            missing_characters = n - len(res)
             new_peek_length = attempted_peek_length + missing_characters
             res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+            if len(res) == n or (
+                self.fp.seen_eof and len(self.fp.buffer) <= new_peek_length
+            ):
                 return res
             attempted_peek_length = new_peek_length
 
-- 
2.43.0


From a93ecb6f47027d3c7fae2e71c027332edd6b6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 03/52] fix: outputs shared with an unaffected file were
 deleted by a rebuild

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..e12ff03 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -246,6 +246,16 @@ async def hot_incremental_rebuild(
         ]
         original_files_to_rebuild = frozenset(files_to_rebuild)
 
+        # An output which is also produced by a file that is neither rebuilt
+        # nor deleted is still wanted and up to date
+        for dirtied in (dirtied_outputs, dirtied_artifacts):
+            for output in list(dirtied):
+                if any(
+                    par not in original_files_to_rebuild and par not in deleted_files
+                    for par in old_output_graph.get_parents(output)
+                ):
+                    dirtied.remove(output)
+
         logger.debug("{} files to rebuild", len(files_to_rebuild))
         logger.debug("{} files to clean", len(dirtied_outputs))
         logger.debug("{} files to possibly clean", len(dirtied_artifacts))
-- 
2.43.0


From d9e4edc8e013cea6a202c5e0b07b1990e4c71d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 04/52] fix: files affected by a changed dependency were
 rebuilt with outdated dependencies

---
 .../build/hot_incremental_rebuild.py          | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index e12ff03..114d3e3 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -125,7 +125,27 @@ async def hot_incremental_rebuild(
         return
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
+        # Files which depend on a changed file are scanned again as well, since
+        # they may have other dependencies or outputs now (e.g., via a template)
         files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        affected_files = set(files_that_need_scanning).union(deleted_files)
+        affected_stack = list(affected_files)
+        while affected_stack:
+            file = affected_stack.pop()
+            related_files: List[str] = []
+            if file in old_dependency_graph:
+                related_files.extend(old_dependency_graph.get_parents(file))
+            if file in old_placeholders_graph:
+                # both ways: the generator restores a placeholder, and whatever
+                # uses the placeholder uses the outputs of its generator
+                related_files.extend(old_placeholders_graph.get_parents(file))
+                related_files.extend(old_placeholders_graph.get_children(file))
+            for related_file in related_files:
+                if related_file not in affected_files:
+                    affected_files.add(related_file)
+                    affected_stack.append(related_file)
+                    files_that_need_scanning.append(related_file)
+
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -192,9 +212,10 @@ async def hot_incremental_rebuild(
                             f"{scanned_file_relpath=} depends on {dep_relpath=}, but nothing produces that file!"
                         )
                     produced_by = old_output_graph.get_parents(dep_relpath)
-                    # take the first one which hasn't been deleted
+                    # take the first one which hasn't been deleted and still
+                    # produces it
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
-- 
2.43.0


From a2556fbd1e750e791b6e0d9a6b153f61b7caaa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 05/52] fix: a build crashed when a deleted placeholder was
 generated again

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 114d3e3..0d7f9a2 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -183,6 +183,9 @@ async def hot_incremental_rebuild(
                             os.path.join(context.folder, placeholder_relpath)
                         )
 
+        # A placeholder which was deleted and has been generated again
+        deleted_files = [f for f in deleted_files if f not in new_placeholders]
+
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
         # to produce that output file.
@@ -571,8 +574,8 @@ async def hot_incremental_rebuild(
                         generator,
                         new_placeholder_graph.get_children(generator) + [file],
                     )
-                    possible_empty_placeholder_nodes.remove(generator)
-                    possible_empty_placeholder_nodes.remove(file)
+                    possible_empty_placeholder_nodes.discard(generator)
+                    possible_empty_placeholder_nodes.discard(file)
                     break
 
         for placeholder, generator in new_placeholders.items():
-- 
2.43.0


From d6aa4dcbc2c481dc698011b165f480298f48ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 06/52] fix: two builds writing the same output could run at
 the same time

---
 .../build/hot_incremental_rebuild.py          | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 0d7f9a2..dab5e53 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -304,9 +304,9 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        pending_outputs: Dict[str, str] = dict()  # output -> file building it
+        finished_outputs: Set[str] = set()
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -359,7 +359,7 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
                             "Cannot rebuild {} while we are cleaning {}",
@@ -372,10 +372,8 @@ async def hot_incremental_rebuild(
 
                 rebuildable_files.append(file)
                 for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                    if output not in finished_outputs:
+                        pending_outputs[output] = file
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -448,18 +446,22 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    finished_outputs.update(rebuild_result.produced)
+                    finished_outputs.update(rebuild_result.reused)
+                    pending_outputs = dict(
+                        (output, file)
+                        for output, file in pending_outputs.items()
+                        if file != pending_file
+                    )
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -469,7 +471,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -477,10 +478,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
-- 
2.43.0


From 8944d2c33a909b3512695a23155679a028768a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 07/52] fix: a rebuild crashed when an old output or its folder
 was already gone

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index dab5e53..7013689 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -487,10 +487,15 @@ async def hot_incremental_rebuild(
 
         for file in still_dirty_artifacts:
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                pass
 
         for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
             folder = os.path.join(context.folder, folder_relpath)
+            if not os.path.isdir(folder):
+                continue
             scandir_iter = os.scandir(folder)
             has_any_contents = next(scandir_iter, None) is not None
             scandir_iter.close()
-- 
2.43.0


From 21c2a25dc32f2bab3ebc5ef7a5cdb91035d5036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 08/52] fix: constants of another mode were kept when the build
 after a mode change failed

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 7013689..a34156d 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -87,6 +87,7 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    new_constants_mode: Optional[str] = None  # stored once the build succeeded
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
@@ -109,11 +110,7 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
 
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
+            new_constants_mode = current_mode
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -645,6 +642,12 @@ async def hot_incremental_rebuild(
         with open(context.placeholder_graph_file, "w") as fp:
             new_placeholder_graph.store(fp)
 
+        if new_constants_mode is not None:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as f:
+                f.write(new_constants_mode)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
-- 
2.43.0


From eeb259cfa96215173a80a26994f7cb530f6eaf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 09/52] fix: outputs left behind by a build that did not finish
 were taken for up to date

---
 vanillaplusjs/build/build_context.py          |  8 ++++
 .../build/hot_incremental_rebuild.py          | 38 +++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..8612a70 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -211,6 +211,14 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def rebuild_marker_file(self) -> str:
+        """Returns the path to the file which exists while a rebuild is changing
+        outputs. If it exists before a rebuild, then the previous one did not
+        finish and the graphs do not describe the contents of the out folder.
+        """
+        return os.path.join(self.out_folder, "rebuild_in_progress.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index a34156d..26c932c 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -87,6 +87,22 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    if os.path.exists(context.rebuild_marker_file):
+        logger.info("The previous rebuild did not finish, rebuilding everything")
+        for dirpath, dirnames, filenames in os.walk(
+            os.path.join(context.out_folder, "www"), topdown=False
+        ):
+            for filename in filenames:
+                os.unlink(os.path.join(dirpath, filename))
+            for dirname in dirnames:
+                os.rmdir(os.path.join(dirpath, dirname))
+
+        for file in old_dependency_graph.nodes:
+            if file not in added_files and file not in deleted_files:
+                changed_files[file] = get_file_signature(
+                    os.path.join(context.folder, file)
+                )
+
     new_constants_mode: Optional[str] = None  # stored once the build succeeded
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
@@ -288,6 +304,10 @@ async def hot_incremental_rebuild(
                 possibly_empty_folders.add(folder)
                 folder = os.path.dirname(folder)
 
+        makedirs_safely(context.out_folder)
+        with open(context.rebuild_marker_file, "w") as f:
+            f.write("")
+
         for file in dirtied_outputs:
             logger.debug("Cleaning {}", file)
             try:
@@ -633,14 +653,14 @@ async def hot_incremental_rebuild(
 
         makedirs_safely(context.out_folder)
 
-        with open(context.dependency_graph_file, "w") as fp:
-            new_dependency_graph.store(fp)
-
-        with open(context.output_graph_file, "w") as fp:
-            new_output_graph.store(fp)
-
-        with open(context.placeholder_graph_file, "w") as fp:
-            new_placeholder_graph.store(fp)
+        for new_graph, graph_file in (
+            (new_dependency_graph, context.dependency_graph_file),
+            (new_output_graph, context.output_graph_file),
+            (new_placeholder_graph, context.placeholder_graph_file),
+        ):
+            with open(graph_file + ".tmp", "w") as fp:
+                new_graph.store(fp)
+            os.replace(graph_file + ".tmp", graph_file)
 
         if new_constants_mode is not None:
             with open(
@@ -648,6 +668,8 @@ async def hot_incremental_rebuild(
             ) as f:
                 f.write(new_constants_mode)
 
+        os.unlink(context.rebuild_marker_file)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
-- 
2.43.0


From 697943921358c5c83da618f2ea8dc185730da45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 10/52] fix: image targets of a few pixels crashed the build by
 listing a size twice

---
 vanillaplusjs/build/html/manips/images/resolutions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/resolutions.py b/vanillaplusjs/build/html/manips/images/resolutions.py
index c66390e..ed26685 100644
--- a/vanillaplusjs/build/html/manips/images/resolutions.py
+++ b/vanillaplusjs/build/html/manips/images/resolutions.py
@@ -51,7 +51,11 @@ def yield_sizes(
     an image of the given source size targetting the given destination
     size, instead of the multiple of the base resolution.
     """
+    last_size = None
     for resolution in yield_resolutions(
         context, src_width, src_height, dst_width, dst_height
     ):
-        yield int(dst_width * resolution), int(dst_height * resolution)
+        size = (int(dst_width * resolution), int(dst_height * resolution))
+        if size != last_size:
+            yield size
+        last_size = size
-- 
2.43.0


From f068bc8178ce7d57cca3cfcef6bc2653c7583f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 11/52] fix: the lazy argument of image commands was never
 recognised

---
 vanillaplusjs/build/html/manips/images/command.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..949e37a 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -148,8 +148,12 @@ def parse_command(args: str) -> ImageCommand:
                 break
 
         remaining_arguments = p.read()
-        if remaining_arguments and remaining_arguments[0] == " ":
-            args = args[:4] + [real_crop_arguments, remaining_arguments]
+        if remaining_arguments and not remaining_arguments[0].isspace():
+            raise ValueError(
+                f"expected crop arguments to be a JSON object; got {repr(crop_arguments_str)}"
+            )
+        if remaining_arguments and not remaining_arguments.isspace():
+            args = args[:4] + [real_crop_arguments, remaining_arguments.strip()]
 
         try:
             crop_arguments = json.loads(real_crop_arguments)
@@ -160,6 +164,8 @@ def parse_command(args: str) -> ImageCommand:
 
     lazy = True
     if len(args) > 5:
+        if args[5] not in ("lazy", "eager"):
+            raise ValueError(f"expected lazy or eager; got {repr(args[5])}")
         lazy = args[5] == "lazy"
 
     return ImageCommand(
-- 
2.43.0


From ad18c9629a38855cfbf577f3b5f821548fa739bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 12/52] fix: image commands with a size of zero or less were
 accepted

---
 vanillaplusjs/build/html/manips/images/command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 949e37a..8795455 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -110,6 +110,8 @@ def parse_command(args: str) -> ImageCommand:
         width = int(width)
     except ValueError:
         raise ValueError(f"expected width to be an integer; got {repr(width)}")
+    if width <= 0:
+        raise ValueError(f"expected width to be positive; got {width}")
 
     if len(args) < 3:
         raise ValueError("expected height")
@@ -119,6 +121,8 @@ def parse_command(args: str) -> ImageCommand:
         height = int(height)
     except ValueError:
         raise ValueError(f"expected height to be an integer; got {repr(height)}")
+    if height <= 0:
+        raise ValueError(f"expected height to be positive; got {height}")
 
     crop_style = "cover"
     if len(args) > 3:
-- 
2.43.0


From 0bc1ed714ba4332527c1a1f4e89f09e187782ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 13/52] fix: the crop arguments of images requested from
 scripts were never validated

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..fb0f59e 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -316,7 +316,7 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
+        crop_settings = img_target_settings.get("crop_arguments", dict())
         if not isinstance(crop_settings, dict):
             logger.warning("[{}] crop settings are not a dictionary", ctx())
             return False
-- 
2.43.0


From f666334cd8389db7a156a2313fc8c4bf3a1196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 14/52] fix: looking up an image target crashed when the source
 image had changed

---
 vanillaplusjs/build/html/manips/images/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..a056190 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -306,7 +306,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
-- 
2.43.0


From e7b4e724d2d2cdac7068de981d81fb6e12d5cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 15/52] fix: scanning a changed image reused the hash from the
 previous build

---
 .../build/html/manips/images/metadata.py      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index a056190..34f8f6e 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -221,6 +221,7 @@ def get_target(
     context: BuildContext,
     relpath: str,
     target: ImageTargetSettings,
+    use_precomputed_hash: bool = True,
 ) -> Optional[int]:
     """Looks up the ID of the given target settings, if they already
     exist in the build context.
@@ -239,6 +240,9 @@ def get_target(
         context (BuildContext): The build context to use.
         relpath (str): The path to the image relative to the public folder.
         target (ImageTargetSettings): The target settings to look up.
+        use_precomputed_hash (bool): True to use the hash of the source image
+            which was stored in the out folder, if there is one. When scanning,
+            that is still the one from the previous build.
 
     Returns:
         (int, None): The ID of the target, or None if it doesn't exist.
@@ -252,10 +256,15 @@ def get_target(
         return None
 
     precomputed_hash_path = os.path.join(context.out_folder, "www", relpath + ".hash")
-    try:
-        with open(precomputed_hash_path, "r") as f:
-            contents_hash = f.read()
-    except FileNotFoundError:
+    contents_hash = None
+    if use_precomputed_hash:
+        try:
+            with open(precomputed_hash_path, "r") as f:
+                contents_hash = f.read()
+        except FileNotFoundError:
+            pass
+
+    if contents_hash is None:
         logger.debug(
             "No precomputed hash available for {} (expected at {}), calculating on demand",
             os.path.join(context.public_folder, relpath),
@@ -374,7 +383,7 @@ def get_or_reserve_target(
     """If the target already exists, returns its ID. Otherwise, reserves
     a new ID for the target.
     """
-    target_id = get_target(context, relpath, target)
+    target_id = get_target(context, relpath, target, use_precomputed_hash=False)
     if target_id is None:
         target_id = reserve_target(context, relpath, target)
     return target_id
-- 
2.43.0


From 12cfe722739aab798cb0127bc6db9c8decc6cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 16/52] fix: images which only differ in their extension were
 taken for each other

---
 vanillaplusjs/build/html/manips/images/metadata.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 34f8f6e..9eaf184 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -293,8 +293,11 @@ def get_target(
                         with open(
                             os.path.join(entry.path, "placeholder.json"), "r"
                         ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
+                            placeholder_dict = json.load(f)
+                        if (
+                            load_image_target_settings(placeholder_dict) == target
+                            and placeholder_dict.get("path", relpath) == relpath
+                        ):
                             return int(entry.name)
                 continue
 
@@ -310,6 +313,9 @@ def get_target(
                     settings_hash,
                 )
                 continue
+            # images which only differ in their extension share the folder
+            if entry_metadata.source.path != os.path.join("src", "public", relpath):
+                continue
             if entry_metadata.source.contents_hash != contents_hash:
                 logger.debug(
                     "{} is not a match for {}; the source hash is {} but should be {}",
@@ -370,7 +376,7 @@ def reserve_target(
         placeholder_path = os.path.join(entry_path, "placeholder.json")
         makedirs_safely(entry_path)
         with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+            json.dump({"path": relpath, **dataclasses.asdict(target)}, f)
 
         return counter
 
-- 
2.43.0


From 0f446fcc1af831e2c735367c0000839f9ed92d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 17/52] fix: urls of pictures with special characters in their
 name led nowhere

---
 vanillaplusjs/build/handlers/image_glue.py         | 2 +-
 vanillaplusjs/build/html/manips/images/manip.py    | 7 +++----
 vanillaplusjs/build/html/manips/images/metadata.py | 6 ++++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index fb0f59e..f866828 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -235,7 +235,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
                             {
                                 "width": output.width,
                                 "height": output.height,
-                                "url": "/" + output.relpath.replace(os.path.sep, "/"),
+                                "url": output.url,
                                 "choice": output.choice,
                             }
                             for output in outputs
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..df15096 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -79,7 +79,7 @@ class ImagesManipulator(HTMLManipulator):
                     name="source",
                     data={
                         (None, "srcset"): ", ".join(
-                            f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
+                            f"{output.url} {output.width}w"
                             for output in outputs
                         )
                     },
@@ -101,10 +101,9 @@ class ImagesManipulator(HTMLManipulator):
                 data={
                     (None, "width"): str(cmd.width),
                     (None, "height"): str(cmd.height),
-                    (None, "src"): "/"
-                    + standard_resolution_output.relpath.replace(os.path.sep, "/"),
+                    (None, "src"): standard_resolution_output.url,
                     (None, "srcset"): ", ".join(
-                        f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
+                        f"{output.url} {output.width}w"
                         for output in default_outputs
                     ),
                     **({(None, "loading"): "lazy"} if cmd.lazy else dict()),
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 9eaf184..81e9275 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -25,6 +25,7 @@ import dataclasses
 from decimal import Decimal
 from vanillaplusjs.build.build_context import BuildContext
 from typing import Dict, Literal, List, Optional, Union
+from urllib.parse import quote
 import os
 import json
 import fasteners
@@ -141,6 +142,11 @@ class ImageTargetOutput:
     corresponding ImageFormat in the settings.
     """
 
+    @property
+    def url(self) -> str:
+        """The url that the artifact is served under"""
+        return "/" + quote(self.relpath.replace(os.path.sep, "/"))
+
 
 @dataclass(frozen=True)
 class ImageTarget:
-- 
2.43.0


From 9a2116501babb6d8153a56506298640d4cf29781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 18/52] fix: pictures cropped in advance were scaled up beyond
 what was left of them

---
 .../build/html/manips/images/command.py        | 11 ++++++++---
 .../build/html/manips/images/exporter.py       | 18 ++++++++++++------
 .../build/html/manips/images/scanner.py        |  6 +++++-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 8795455..90797b6 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -193,11 +193,16 @@ def validate_command(
 
     try:
         img = Image.open(os.path.join(context.folder, path_relative_to_root))
-        if img.width < command.width:
+        crop = command.crop_arguments
+        width = img.width - crop.get("pre_left_crop", 0) - crop.get("pre_right_crop", 0)
+        height = (
+            img.height - crop.get("pre_top_crop", 0) - crop.get("pre_bottom_crop", 0)
+        )
+        img.close()
+        if width < command.width:
             return False
-        if img.height < command.height:
+        if height < command.height:
             return False
-        img.close()
     except FileNotFoundError:
         return False
     except UnidentifiedImageError:
diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..c5b8dca 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -177,11 +177,19 @@ def export_command(
     )
     outputs: Dict[str, List[ImageTargetOutput]] = dict()
 
+    sizes = list(
+        yield_sizes(
+            context,
+            image_width - crop_settings.pre_left_crop - crop_settings.pre_right_crop,
+            image_height - crop_settings.pre_top_crop - crop_settings.pre_bottom_crop,
+            command.width,
+            command.height,
+        )
+    )
+
     with concurrent.futures.ProcessPoolExecutor() as executor:
         futures: List[concurrent.futures.Future] = []
-        for out_width, out_height in yield_sizes(
-            context, image_width, image_height, command.width, command.height
-        ):
+        for out_width, out_height in sizes:
             for format_name, format_settings in context.image_settings.formats.items():
                 for export_name, export_settings in format_settings.exports.items():
                     if not export_settings.applies_to(out_width, out_height):
@@ -210,9 +218,7 @@ def export_command(
                 raise future.exception()
             assert future.done()
 
-    for out_width, out_height in yield_sizes(
-        context, image_width, image_height, command.width, command.height
-    ):
+    for out_width, out_height in sizes:
         for format_name, format_settings in context.image_settings.formats.items():
             best_export: Optional[ImageExport] = None
             best_export_name: Optional[str] = None
diff --git a/vanillaplusjs/build/html/manips/images/scanner.py b/vanillaplusjs/build/html/manips/images/scanner.py
index 1672f99..270e1dc 100644
--- a/vanillaplusjs/build/html/manips/images/scanner.py
+++ b/vanillaplusjs/build/html/manips/images/scanner.py
@@ -79,7 +79,11 @@ def scan_command(
     image.close()
 
     for out_width, out_height in yield_sizes(
-        context, image_width, image_height, command.width, command.height
+        context,
+        image_width - crop_settings.pre_left_crop - crop_settings.pre_right_crop,
+        image_height - crop_settings.pre_top_crop - crop_settings.pre_bottom_crop,
+        command.width,
+        command.height,
     ):
         for format_name in context.image_settings.formats.keys():
             file_name = f"{out_width}x{out_height}.{format_name}"
-- 
2.43.0


From 269dc732c6e72539c5e38c223bf0d24733b03eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 19/52] fix: files in folders whose name starts with public
 were published

---
 vanillaplusjs/build/handlers/copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
-- 
2.43.0


From 9dd3a9362bef08005d515fc7695d4c074770ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 20/52] fix: a script or stylesheet outside of src/public
 failed the build

---
 vanillaplusjs/build/handlers/css.py | 6 ++++++
 vanillaplusjs/build/handlers/js.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..817016a 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..3e810e1 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +65,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
-- 
2.43.0


From 8949c7f5829d67c0bbcd0ac4d0d1f13920ebfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 21/52] fix: image requests in folders whose name starts with
 public were published

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index f866828..0f05923 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public", "")) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
-- 
2.43.0


From 42cb1aebb2b083805cb415d9c8b4530a8516945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 22/52] fix: images in folders whose name starts with public
 were published

---
 vanillaplusjs/build/html/manips/images/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 90797b6..6c9d8df 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -188,7 +188,7 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(os.path.join("src", "public", "")):
         return False
 
     try:
-- 
2.43.0


From 7777b26681a715908dfa566965ead9581e7eeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 23/52] fix: image paths could lead out of src/public

---
 vanillaplusjs/build/handlers/image_glue.py        | 8 +++++++-
 vanillaplusjs/build/html/manips/images/command.py | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 0f05923..1d14de7 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -288,7 +288,13 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             return False
 
         path_rel_to_public = path[1:]
-        path_rel_to_root = os.path.join("src", "public", path_rel_to_public)
+        path_rel_to_root = os.path.normpath(
+            os.path.join("src", "public", path_rel_to_public)
+        )
+        if not path_rel_to_root.startswith(os.path.join("src", "public", "")):
+            logger.warning("[{}] path is not within src/public", ctx())
+            return False
+
         if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
             logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
             return False
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 6c9d8df..369fe55 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -51,8 +51,8 @@ class ImageCommand:
         of the project.
         """
         if self.path.startswith("/"):
-            return os.path.join(
-                "src", "public", self.path[1:].replace("/", os.path.sep)
+            return os.path.normpath(
+                os.path.join("src", "public", self.path[1:].replace("/", os.path.sep))
             )
 
         abs_path = os.path.abspath(
-- 
2.43.0


From 20c0f7583b6f3843726f03d0832f7d8419e03d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 24/52] fix: a script importing image metadata could be built
 before it

---
 vanillaplusjs/build/handlers/image_glue.py | 29 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 1d14de7..3dc3dea 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Set
+from typing import List, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -122,13 +122,29 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     )
 
 
+def get_placeholder_dependencies(context: BuildContext, relpath: str) -> List[str]:
+    """Determines what the given images js placeholder depends on, which is
+    the file that builds the corresponding output. This ensures that whatever
+    imports the placeholder is built after that output.
+    """
+    json_relpath = relpath[: -len(".js")] + ".json"
+    if not os.path.exists(os.path.join(context.folder, json_relpath)):
+        return []
+    return [json_relpath]
+
+
 def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     """Scans the given file to determine what this handler would do
     if it were to build it.
     """
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return ScanFileResult(dependencies=[], produces=[])
 
+    if relpath.endswith(".images.js"):
+        return ScanFileResult(
+            dependencies=get_placeholder_dependencies(context, relpath), produces=[]
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
@@ -181,9 +197,16 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
 def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     """Builds the given file and returns what we built"""
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return BuildFileResult(children=[], produced=[], reused=[])
 
+    if relpath.endswith(".images.js"):
+        return BuildFileResult(
+            children=get_placeholder_dependencies(context, relpath),
+            produced=[],
+            reused=[],
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
-- 
2.43.0


From 6124eb945755781b3ce7084fc7e3e16c5da5844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 25/52] fix: placeholders were looked up relative to the
 working directory

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 3dc3dea..ed59d6f 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -165,7 +165,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
     if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
-- 
2.43.0


From 5143f2b93bb92c68a207a6589acd27d2696acc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 26/52] fix: cleaning failed when a placeholder was already
 gone

---
 vanillaplusjs/runners/clean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..61318a0 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -62,7 +62,10 @@ def clean(folder: str, placeholders: bool) -> None:
 
             for file, node in placeholder_graph.nodes.items():
                 if node.parents:
-                    os.remove(os.path.join(folder, file))
+                    try:
+                        os.remove(os.path.join(folder, file))
+                    except FileNotFoundError:
+                        pass
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
-- 
2.43.0


From b51cc36d090571c40eea4942217956c4be98f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 27/52] fix: builds failed or left files behind after external
 files were undeclared

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..f2c0e5f 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -119,7 +119,9 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
+    if not context.external_files and not os.path.exists(
+        context.external_files_state_file
+    ):
         return
 
     external_files_state = ExternalFilesState(state_by_relpath=dict())
@@ -131,10 +133,15 @@ async def check_external_files(context: BuildContext):
 
     new_external_files_state = ExternalFilesState(state_by_relpath=dict())
 
+    deleted_any = False
     for old_external_file_relpath in external_files_state.state_by_relpath.keys():
         if old_external_file_relpath not in context.external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            deleted_any = True
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                pass
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
@@ -161,7 +168,7 @@ async def check_external_files(context: BuildContext):
         if executor is not None:
             executor.shutdown(wait=True)
 
-    if not futures:
+    if not futures and not deleted_any:
         return
 
     for future in futures:
-- 
2.43.0


From e29518e5d86bf58d1895f3c2703c2bdd494b241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 28/52] fix: external files downloaded by a build that failed
 on another one were never cleaned up

---
 .../build/cold_incremental_rebuild.py         | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index f2c0e5f..b1cb8ef 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -147,7 +147,7 @@ async def check_external_files(context: BuildContext):
     # We don't want to spin up a whole process pool unless we actually have
     # something to do
 
-    futures: List[concurrent.futures.Future] = []
+    futures: Dict[str, concurrent.futures.Future] = dict()
     try:
         for desired_external_file in context.external_files.values():
             if is_external_file_skippable(
@@ -161,8 +161,8 @@ async def check_external_files(context: BuildContext):
             if executor is None:
                 executor = ProcessPoolExecutor()
 
-            futures.append(
-                executor.submit(handle_external_file, context, desired_external_file)
+            futures[desired_external_file.relpath] = executor.submit(
+                handle_external_file, context, desired_external_file
             )
     finally:
         if executor is not None:
@@ -171,29 +171,26 @@ async def check_external_files(context: BuildContext):
     if not futures and not deleted_any:
         return
 
-    for future in futures:
-        future.result()
-
-    for desired_external_file in context.external_files.values():
-        if (
-            desired_external_file.relpath
-            not in new_external_files_state.state_by_relpath
-        ):
-            new_external_files_state.state_by_relpath[
-                desired_external_file.relpath
-            ] = ExternalFileState(
-                relpath=desired_external_file.relpath,
-                integrity=desired_external_file.integrity,
-                signature=get_file_signature(
-                    os.path.join(context.folder, desired_external_file.relpath)
-                ),
+    for relpath, future in futures.items():
+        if future.exception() is None:
+            new_external_files_state.state_by_relpath[relpath] = ExternalFileState(
+                relpath=relpath,
+                integrity=context.external_files[relpath].integrity,
+                signature=get_file_signature(os.path.join(context.folder, relpath)),
             )
+        elif relpath in external_files_state.state_by_relpath:
+            new_external_files_state.state_by_relpath[
+                relpath
+            ] = external_files_state.state_by_relpath[relpath]
 
     external_files_state_folder = os.path.dirname(context.external_files_state_file)
     makedirs_safely(external_files_state_folder)
     with open(context.external_files_state_file, "w") as f:
         json.dump(dataclasses.asdict(new_external_files_state), f)
 
+    for future in futures.values():
+        future.result()
+
 
 def is_external_file_skippable(
     context: BuildContext, external_files_state: ExternalFilesState, relpath: str
-- 
2.43.0


From bbc19086033f4fd50dbfdecb260245df94aa39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 29/52] fix: a build killed while storing the external files
 state broke later builds

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index b1cb8ef..ffa10f9 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -185,8 +185,11 @@ async def check_external_files(context: BuildContext):
 
     external_files_state_folder = os.path.dirname(context.external_files_state_file)
     makedirs_safely(external_files_state_folder)
-    with open(context.external_files_state_file, "w") as f:
+    with open(context.external_files_state_file + ".tmp", "w") as f:
         json.dump(dataclasses.asdict(new_external_files_state), f)
+    os.replace(
+        context.external_files_state_file + ".tmp", context.external_files_state_file
+    )
 
     for future in futures.values():
         future.result()
-- 
2.43.0


From 8ceb7f868373d4e15dac236ab9a71dd20ae647b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 30/52] fix: the dev watcher stopped and lost changes when a
 rebuild could not be prepared

---
 vanillaplusjs/runners/dev.py | 104 +++++++++++++++++------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..a6acdc4 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -213,64 +213,64 @@ class DevEventHandler(FileSystemEventHandler):
 
         logger.info("Rebuilding...")
 
-        context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
-
-        with open(context.config_file) as f:
-            config = json.load(f)
-
-        context.host = config["host"]
-        context.icon_settings = load_icon_settings(context)
-        context.image_settings = load_image_settings(config["images"])
-        context.auto_generate_images_js_placeholders = config[
-            "auto_generate_images_js_placeholders"
-        ]
-        context.external_files = load_external_files(config["external_files"])
-        context.js_constants = load_js_constants(config["js_constants"])
-        context.delay_files = []
-
-        old_dependency_graph = FileDependencyGraph()
-        old_output_graph = FileDependencyGraph()
-        old_placeholder_graph = FileDependencyGraph()
-
-        if os.path.exists(context.dependency_graph_file):
-            with open(context.dependency_graph_file) as f:
-                old_dependency_graph = FileDependencyGraph.load(f)
-
-        if os.path.exists(context.output_graph_file):
-            with open(context.output_graph_file) as f:
-                old_output_graph = FileDependencyGraph.load(f)
-
-        if os.path.exists(context.placeholder_graph_file):
-            with open(context.placeholder_graph_file) as f:
-                old_placeholder_graph = FileDependencyGraph.load(f)
-
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
+        loop = asyncio.new_event_loop()
+        asyncio.set_event_loop(loop)
+        try:
+            context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
+
+            with open(context.config_file) as f:
+                config = json.load(f)
+
+            context.host = config["host"]
+            context.icon_settings = load_icon_settings(context)
+            context.image_settings = load_image_settings(config["images"])
+            context.auto_generate_images_js_placeholders = config[
+                "auto_generate_images_js_placeholders"
+            ]
+            context.external_files = load_external_files(config["external_files"])
+            context.js_constants = load_js_constants(config["js_constants"])
+            context.delay_files = []
+
+            old_dependency_graph = FileDependencyGraph()
+            old_output_graph = FileDependencyGraph()
+            old_placeholder_graph = FileDependencyGraph()
+
+            if os.path.exists(context.dependency_graph_file):
+                with open(context.dependency_graph_file) as f:
+                    old_dependency_graph = FileDependencyGraph.load(f)
+
+            if os.path.exists(context.output_graph_file):
+                with open(context.output_graph_file) as f:
+                    old_output_graph = FileDependencyGraph.load(f)
+
+            if os.path.exists(context.placeholder_graph_file):
+                with open(context.placeholder_graph_file) as f:
+                    old_placeholder_graph = FileDependencyGraph.load(f)
+
+            changed_files = dict(
+                (os.path.relpath(file, self.folder), get_file_signature(file))
+                for file in changed
+            )
 
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
+            added_files = dict(
+                (os.path.relpath(file, self.folder), get_file_signature(file))
+                for file in created
+            )
 
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+            deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
 
-        if changed_files:
-            for file, signature in changed_files.items():
-                logger.debug(f"{file} changed: {signature}")
+            if changed_files:
+                for file, signature in changed_files.items():
+                    logger.debug(f"{file} changed: {signature}")
 
-        if added_files:
-            for file, signature in added_files.items():
-                logger.debug(f"{file} added: {signature}")
+            if added_files:
+                for file, signature in added_files.items():
+                    logger.debug(f"{file} added: {signature}")
 
-        if deleted_files:
-            for file in deleted_files:
-                logger.debug(f"{file} deleted")
+            if deleted_files:
+                for file in deleted_files:
+                    logger.debug(f"{file} deleted")
 
-        loop = asyncio.new_event_loop()
-        asyncio.set_event_loop(loop)
-        try:
             loop.run_until_complete(
                 hot_incremental_rebuild(
                     context,
-- 
2.43.0


From b507115be9d39d39a975c45e9347813e1b7606fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 31/52] fix: the dev watcher mixed up or lost changes of
 replaced files and folders

---
 vanillaplusjs/runners/dev.py | 71 ++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index a6acdc4..e658c0e 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -247,17 +247,37 @@ class DevEventHandler(FileSystemEventHandler):
                 with open(context.placeholder_graph_file) as f:
                     old_placeholder_graph = FileDependencyGraph.load(f)
 
-            changed_files = dict(
-                (os.path.relpath(file, self.folder), get_file_signature(file))
-                for file in changed
-            )
-
-            added_files = dict(
-                (os.path.relpath(file, self.folder), get_file_signature(file))
-                for file in created
-            )
-
-            deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+            # Which events we got does not tell what to do with a file: they may
+            # be about a folder, out of date, or about something built before
+            touched = set()
+            for path in deleted | changed | created:
+                relpath = os.path.relpath(path, self.folder)
+                touched.add(relpath)
+                touched.update(
+                    file
+                    for file in old_dependency_graph.nodes
+                    if file.startswith(relpath + os.path.sep)
+                )
+                for dirpath, _, filenames in os.walk(path):
+                    for filename in filenames:
+                        touched.add(
+                            os.path.relpath(
+                                os.path.join(dirpath, filename), self.folder
+                            )
+                        )
+
+            changed_files = dict()
+            added_files = dict()
+            deleted_files = list()
+            for file in touched:
+                file_path = os.path.join(self.folder, file)
+                if os.path.isdir(file_path) or not os.path.lexists(file_path):
+                    if file in old_dependency_graph:
+                        deleted_files.append(file)
+                elif file in old_dependency_graph:
+                    changed_files[file] = get_file_signature(file_path)
+                else:
+                    added_files[file] = get_file_signature(file_path)
 
             if changed_files:
                 for file, signature in changed_files.items():
@@ -295,25 +315,9 @@ class DevEventHandler(FileSystemEventHandler):
         except Exception:
             logger.exception("Error rebuilding")
             with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
+                self.changed_files.update(changed)
+                self.created_files.update(created)
+                self.deleted_files.update(deleted)
                 self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
@@ -329,8 +333,6 @@ class DevEventHandler(FileSystemEventHandler):
             self.last_change_at = time.time()
 
     def on_created(self, event: FileCreatedEvent):
-        if event.is_directory:
-            return
         with self.lock:
             if event.src_path in self.deleted_files:
                 self.deleted_files.remove(event.src_path)
@@ -341,22 +343,19 @@ class DevEventHandler(FileSystemEventHandler):
             self.last_change_at = time.time()
 
     def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
         with self.lock:
             if event.src_path in self.changed_files:
                 self.changed_files.remove(event.src_path)
                 self.deleted_files.add(event.src_path)
             elif event.src_path in self.created_files:
                 self.created_files.remove(event.src_path)
+                self.deleted_files.add(event.src_path)
             else:
                 self.deleted_files.add(event.src_path)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
 
     def on_moved(self, event: FileMovedEvent):
-        if event.is_directory:
-            return
         with self.lock:
             self.on_deleted(FileDeletedEvent(event.src_path))
             self.on_created(FileCreatedEvent(event.dest_path))
-- 
2.43.0


From b18529ff943ae79c1d943c070d2fded6233327f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 32/52] fix: changes made during a failing rebuild did not
 trigger another rebuild

---
 vanillaplusjs/runners/dev.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index e658c0e..68c6c4f 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -315,10 +315,13 @@ class DevEventHandler(FileSystemEventHandler):
         except Exception:
             logger.exception("Error rebuilding")
             with self.lock:
+                changes_during_rebuild = (
+                    self.deleted_files or self.changed_files or self.created_files
+                )
                 self.changed_files.update(changed)
                 self.created_files.update(created)
                 self.deleted_files.update(deleted)
-                self.project_is_unbuildable = True
+                self.project_is_unbuildable = not changes_during_rebuild
         finally:
             asyncio.set_event_loop(None)
             loop.close()
-- 
2.43.0


From b84a5e62055def527d39e53428cd60576a5a3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 33/52] fix: canonical addresses of relative links, other
 schemes and unusual page names were wrong

---
 .../build/html/manips/link_rel_canonical.py   | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..ff0487d 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -5,10 +5,18 @@ from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
+import re
 from dataclasses import dataclass
+from urllib.parse import quote, urljoin
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
+ABSOLUTE_URL = re.compile(r"^([a-zA-Z][a-zA-Z0-9+.\-]*:|//)")
+"""Matches urls which include their own scheme or host"""
+
+C0_CONTROL_OR_SPACE = "".join(chr(i) for i in range(33))
+"""The characters which are ignored around urls"""
+
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
 
@@ -72,14 +80,17 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         host = self.context.host
         tag = self.try_get_tag(node)
 
-        href = node["data"].get((None, tag.attr))
+        href = self.get_href(node, tag)
+        path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
+        path = path_relative_to_public.replace(os.path.sep, "/")
+        page_url = f"https://{host}/{quote(path)}"
         new_href = None
         if href is None:
-            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
+            new_href = page_url
+        elif href == "":
+            new_href = f"https://{host}"
         else:
-            new_href = f"https://{host}{href}"
+            new_href = urljoin(page_url, href)
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
@@ -92,8 +103,8 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         if tag is None:
             return None
 
-        href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        href = self.get_href(node, tag)
+        if href is not None and ABSOLUTE_URL.match(href):
             return None
 
         tag.other_tags = dict(
@@ -101,6 +112,15 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         )
         return tag
 
+    def get_href(self, node: tkn.HTMLToken, tag: TagToReplace) -> Optional[str]:
+        """The href without the characters which are ignored within urls"""
+        href = node["data"].get((None, tag.attr))
+        if href is None:
+            return None
+        for char in "\t\n\r":
+            href = href.replace(char, "")
+        return href.strip(C0_CONTROL_OR_SPACE)
+
     def try_get_tag_inner(self, node: tkn.HTMLToken) -> Optional[TagToReplace]:
         if node["type"] != "EmptyTag":
             return None
-- 
2.43.0


From b78b91352a013844debaa7c2876fe8ec12ef2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 34/52] fix: relative, protocol-relative and percent-encoded
 links were not handled when adding hashes

---
 vanillaplusjs/build/html/manips/link_hash.py | 50 +++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..52c7caa 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -7,11 +7,19 @@ from vanillaplusjs.build.build_context import BuildContext
 import os
 from vanillaplusjs.constants import PROCESSOR_VERSION
 from dataclasses import dataclass
-from urllib.parse import urlencode
+from urllib.parse import unquote, urlencode
 import itertools
+import posixpath
 import abc
+import re
 
 
+ABSOLUTE_URL = re.compile(r"^([a-zA-Z][a-zA-Z0-9+.\-]*:|//)")
+"""Matches urls which include their own scheme or host"""
+
+C0_CONTROL_OR_SPACE = "".join(chr(i) for i in range(33))
+"""The characters which are ignored around urls"""
+
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
 
@@ -27,8 +35,11 @@ class LinkDependency:
     attr_name: str
     """The name of the attribute that refers to the file to link to."""
 
+    href: str
+    """The value of the attribute."""
+
     path: str
-    """The path that we originally wanted to link to."""
+    """The path of the file that is linked to, relative to the public folder."""
 
     attributes: Dict[str, str]
     """The other attributes besides `name`"""
@@ -149,7 +160,7 @@ class LinkHash(HTMLManipulator):
         new_attribute_keys = sorted(
             itertools.chain(dep.attributes.keys(), (dep.attr_name,))
         )
-        new_href = f"/{dep.path}?" + urlencode({"v": hash, "pv": PROCESSOR_VERSION})
+        new_href = f"{dep.href}?" + urlencode({"v": hash, "pv": PROCESSOR_VERSION})
 
         new_data = dict(
             ((None, key), dep.attributes[key])
@@ -187,18 +198,45 @@ class LinkHash(HTMLManipulator):
 
         attributes = node["data"]
         href = attributes.get((None, link_type.attr_name))
-        if href is None or not href.startswith("/") or any(c in "?#" for c in href):
+        if href is None:
+            return None
+
+        href = href.strip(C0_CONTROL_OR_SPACE)
+        path = self._get_path_from_public(href)
+        if path is None:
             return None
 
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
-            path=href[1:],
+            href=href,
+            path=path,
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                (key[1], val)
+                for (key, val) in attributes.items()
+                if key[1] != link_type.attr_name
             ),
         )
 
+    def _get_path_from_public(self, href: str) -> Optional[str]:
+        """Returns the path of the file the given url refers to, relative to
+        the public folder and separated with slashes. The url may be relative
+        to the root or to this page.
+
+        Returns None if the url has a query or fragment, or does not refer to
+        a file within the public folder.
+        """
+        if ABSOLUTE_URL.match(href) or any(c in "?#" for c in href):
+            return None
+
+        if href.rsplit("/", 1)[-1] in ("", ".", ".."):
+            return None
+
+        page_path = "/" + self.relpath[PUBLIC_PREFIX_LENGTH:].replace(os.path.sep, "/")
+        return posixpath.normpath(
+            posixpath.join(posixpath.dirname(page_path), unquote(href))
+        ).lstrip("/")
+
     def scan_result(self) -> ScanFileResult:
         """The scan result for this manipulator is always empty."""
         return ScanFileResult(dependencies=list(self.dependencies), produces=[])
-- 
2.43.0


From d72b9be7016865ade6e276a199a9a1f37fc07c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 35/52] fix: css at the end of a file, numbers, and malformed
 urls were not tokenized as css

---
 vanillaplusjs/build/css/token.py     |   5 ++
 vanillaplusjs/build/css/tokenizer.py | 115 +++++++++++++--------------
 2 files changed, 61 insertions(+), 59 deletions(-)

diff --git a/vanillaplusjs/build/css/token.py b/vanillaplusjs/build/css/token.py
index b444ffe..8bf65ea 100644
--- a/vanillaplusjs/build/css/token.py
+++ b/vanillaplusjs/build/css/token.py
@@ -77,6 +77,11 @@ class CSSToken(TypedDict):
     hash tokens are valid id selectors.
     """
 
+    representation: Optional[str]
+    """For number, percentage and dimension tokens, how the number is written
+    within the file. If unset, the value is written.
+    """
+
     unit: Optional[str]
     """The dimension token may have the unit set to one or more
     code points. In all other cases, the unit is None or unset
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 1fe32b6..21780c5 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -45,7 +45,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "#":
             peekable.read(1)
             peek_2 = peekable.peek(2)
-            if len(peek_2) == 0:
+            if not peek_2:
                 yield CSSToken(type=CSSTokenType.delim, value="#")
                 continue
 
@@ -175,7 +175,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
             yield CSSToken(type=CSSTokenType.right_curly_bracket)
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_numeric_token(peekable)
             continue
 
@@ -213,7 +213,8 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     while True:
         peeked = fp.peek(2)
         if peeked is None:
-            return None
+            # parse error; the comment extends to the end of the file
+            return CSSToken(type=CSSTokenType.comment, value=comment)
         if peeked == "*/":
             fp.read(2)
             return CSSToken(type=CSSTokenType.comment, value=comment)
@@ -320,8 +321,8 @@ def _consume_ident_sequence(fp: PreprocessedTextIO) -> str:
 
 def _consume_number(
     fp: PreprocessedTextIO,
-) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"]]]:
-    """Consumes a number
+) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"], str]]:
+    """Consumes a number; returns its value, its type, and how it was written.
 
     https://www.w3.org/TR/css-syntax-3/#consume-a-number
     """
@@ -335,52 +336,29 @@ def _consume_number(
     if peeked in "+-":
         repr += fp.read(1)
 
-    while True:
-        peeked = fp.peek(1)
-        if peeked is None:
-            if repr in "+-" or repr == "":
-                return None
-            return int(repr), res_type
-        if not peeked.isdigit():
-            break
+    while _is_digit(fp.peek(1)):
         repr += fp.read(1)
 
-    peek_2 = fp.peek(2)
-    if peek_2 is None or len(peek_2) < 2:
-        return int(repr), res_type
-
-    if peek_2[0] == "." and peek_2[1].isdigit():
+    peek_2 = fp.peek(2) or ""
+    if peek_2[:1] == "." and _is_digit(peek_2[1:2]):
         repr += fp.read(2)
         res_type = "number"
-        while True:
-            peeked = fp.peek(1)
-            if peeked is None:
-                return float(repr), res_type
-            if not peeked.isdigit():
-                break
+        while _is_digit(fp.peek(1)):
             repr += fp.read(1)
 
-    peek_3 = fp.peek(3)
-    if peek_3 is None or len(peek_3) < 2:
-        return float(repr), res_type
-
-    if peek_3[0] in "eE" and (
-        peek_3[1].isdigit()
-        or (peek_3[1] in "+-" and len(peek_3) == 3 and peek_3[2].isdigit())
+    peek_3 = fp.peek(3) or ""
+    if peek_3[:1] in ("e", "E") and (
+        _is_digit(peek_3[1:2])
+        or (peek_3[1:2] in ("+", "-") and _is_digit(peek_3[2:3]))
     ):
         res_type = "number"
         repr += fp.read(2)
-        while True:
-            peeked = fp.peek(1)
-            if peeked is None:
-                return float(repr), res_type
-            if not peeked.isdigit():
-                break
+        while _is_digit(fp.peek(1)):
             repr += fp.read(1)
 
     if res_type == "integer":
-        return int(repr), res_type
-    return float(repr), res_type
+        return int(repr), res_type, repr
+    return float(repr), res_type, repr
 
 
 def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -388,13 +366,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     or a dimension token.
     https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
     """
-    number_value, number_type = _consume_number(fp)
+    number_value, number_type, number_repr = _consume_number(fp)
 
     if _is_ident_sequence(fp.peek(3)):
         return CSSToken(
             type=CSSTokenType.dimension,
             value=number_value,
             type_flag=number_type,
+            representation=number_repr,
             unit=_consume_ident_sequence(fp),
         )
 
@@ -404,12 +383,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             type=CSSTokenType.percentage,
             value=number_value,
             type_flag=number_type,
+            representation=number_repr,
         )
 
     return CSSToken(
         type=CSSTokenType.number,
         value=number_value,
         type_flag=number_type,
+        representation=number_repr,
     )
 
 
@@ -429,7 +410,8 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
         peek_2 = fp.peek(2)
         if peek_2 is None or peek_2 == "":
-            return CSSToken(type=CSSTokenType.ident, value=string)
+            # parse error
+            return CSSToken(type=CSSTokenType.url, value="")
         if peek_2[0] in ('"', "'") or (
             len(peek_2) == 2 and _is_whitespace(peek_2[0]) and peek_2[1] in ('"', "'")
         ):
@@ -463,14 +445,22 @@ def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             return CSSToken(type=CSSTokenType.url, value=value)
 
         if _is_whitespace(peeked):
-            fp.read(1)
+            while _is_whitespace(fp.peek(1)):
+                fp.read(1)
+            if value != "" and fp.peek(1) not in (None, "", ")"):
+                # parse error; whitespace within a url must be escaped
+                _consume_remnants_of_bad_url(fp)
+                return CSSToken(type=CSSTokenType.bad_url)
             continue
 
         if peeked in ('"', "'", "(") or _is_non_printable(peeked):
             _consume_remnants_of_bad_url(fp)
             return CSSToken(type=CSSTokenType.bad_url)
 
-        if peeked == "\\" and _is_valid_escape(fp.peek(2)):
+        if peeked == "\\":
+            if not _is_valid_escape(fp.peek(2)):
+                _consume_remnants_of_bad_url(fp)
+                return CSSToken(type=CSSTokenType.bad_url)
             fp.read(1)
             value += _consume_escaped_code_point(fp)
             continue
@@ -487,7 +477,7 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
         if consumed is None or consumed == "" or consumed == ")":
             return
 
-        if _is_valid_escape(consumed + fp.peek(1)):
+        if _is_valid_escape(consumed + (fp.peek(1) or "")):
             _consume_escaped_code_point(fp)
             continue
 
@@ -499,6 +489,11 @@ def _is_hex_digit(char: str) -> bool:
     return char is not None and char in HEX_CHARACTERS
 
 
+def _is_digit(char: Optional[str]) -> bool:
+    """https://www.w3.org/TR/css-syntax-3/#digit"""
+    return char is not None and char != "" and char in "0123456789"
+
+
 def _is_whitespace(char: Optional[str]) -> bool:
     return (
         char is not None
@@ -516,34 +511,34 @@ def _is_ident_start_codepoint(char: Optional[str]) -> bool:
 def _is_ident_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
+    return _is_ident_start_codepoint(char) or _is_digit(char) or char == "-"
 
 
-def _is_valid_escape(two: str) -> bool:
+def _is_valid_escape(two: Optional[str]) -> bool:
     """Determines if the given two characters form a valid escape
     https://www.w3.org/TR/css-syntax-3/#check-if-two-code-points-are-a-valid-escape
 
-    This does not support being called without the two characters
+    There may be only one character at the end of the file.
     """
-    if len(two) != 2:
+    if two is None or two == "":
         return False
 
-    return two[0] == "\\" and two[1] != "\n"
+    return two[0] == "\\" and two[1:] != "\n"
 
 
-def _is_ident_sequence(three: str) -> bool:
+def _is_ident_sequence(three: Optional[str]) -> bool:
     """Determines if the given three characters would start an
     ident sequence
 
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-an-ident-sequence
 
-    This does not support being called without the three characters
+    There may be fewer characters at the end of the file.
     """
-    if len(three) != 3:
+    if three is None or three == "":
         return False
 
     if three[0] == "-":
-        return (
+        return len(three) > 1 and (
             _is_ident_start_codepoint(three[1])
             or three[1] == "-"
             or _is_valid_escape(three[1:])
@@ -561,19 +556,21 @@ def _is_ident_sequence(three: str) -> bool:
 def _is_number(three: Optional[str]) -> bool:
     """Determines if the given three codepoints would start a number
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-a-number
+
+    There may be fewer characters at the end of the file.
     """
-    if three is None:
-        return False
-    if len(three) != 3:
+    if three is None or three == "":
         return False
 
     if three[0] in "+-":
-        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())
+        return _is_digit(three[1:2]) or (
+            three[1:2] == "." and _is_digit(three[2:3])
+        )
 
     if three[0] == ".":
-        return three[1].isdigit()
+        return _is_digit(three[1:2])
 
-    return three[0].isdigit()
+    return _is_digit(three[0])
 
 
 def _is_non_printable(char: Optional[str]) -> bool:
-- 
2.43.0


From c8bf3779c68d73e49905a192939487a73cad4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 36/52] fix: names, numbers, strings and urls in css, and
 strings in js, lost or changed escaped characters

---
 vanillaplusjs/build/css/manips/icons/manip.py |  29 +++--
 vanillaplusjs/build/css/serializer.py         | 102 ++++++++++++------
 vanillaplusjs/build/handlers/js_constants.py  |   2 +-
 vanillaplusjs/build/js/serializer.py          |  38 ++++++-
 4 files changed, 131 insertions(+), 40 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..31d120f 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -271,7 +271,7 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="border-radius"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="box-shadow"),
@@ -289,13 +289,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="padding"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="margin"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="text-align"),
@@ -321,8 +321,10 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -337,9 +339,12 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix} .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="background"),
@@ -410,8 +415,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:hover .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="hover"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -431,8 +441,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..2081337 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -2,6 +2,8 @@ from typing import Iterable
 from .token import CSSToken, CSSTokenType
 
 
+DIGITS = frozenset("0123456789")
+
 def serialize(token: CSSToken) -> str:
     """Serializes the given CSS token. Attempts to follow the suggestions made
     by https://www.w3.org/TR/css-syntax-3/#serialization
@@ -19,7 +21,9 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.bad_string:
         return '"\n'
     elif token["type"] == CSSTokenType.hash:
-        return "#" + token["value"]
+        if token.get("type_flag") == "unrestricted":
+            return "#" + serialize_name(token["value"])
+        return "#" + serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.delim:
         return token["value"]
     elif token["type"] == CSSTokenType.left_parens:
@@ -27,24 +31,26 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.right_parens:
         return ")"
     elif token["type"] == CSSTokenType.number:
-        return str(token["value"])
+        return serialize_number(token)
     elif token["type"] == CSSTokenType.percentage:
-        return str(token["value"]) + "%"
+        return serialize_number(token) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return str(token["value"]) + token["unit"]
+        return serialize_number(token) + serialize_unit(token["unit"])
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
         return "-->"
     elif token["type"] == CSSTokenType.ident:
-        return token["value"]
+        return serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.function:
-        return token["value"] + "("
+        return serialize_ident(token["value"]) + "("
     elif token["type"] == CSSTokenType.url:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"],
+                quote="",
+                simple_escape_characters=('"', "'", "(", ")", "\\", " ", "\t"),
             )
             + ")"
         )
@@ -57,7 +63,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.cdo:
         return "<!--"
     elif token["type"] == CSSTokenType.at_keyword:
-        return "@" + token["value"]
+        return "@" + serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.left_square_bracket:
         return "["
     elif token["type"] == CSSTokenType.right_square_bracket:
@@ -79,6 +85,61 @@ def serialize_many(token: Iterable[CSSToken]) -> str:
     return "".join(serialize(t) for t in token)
 
 
+def serialize_number(token: CSSToken) -> str:
+    """Serializes the numeric part of a number, percentage, or dimension, as it
+    was written if that's known."""
+    representation = token.get("representation")
+    if representation is not None:
+        return representation
+    return str(token["value"])
+
+
+def serialize_unit(unit: str) -> str:
+    """Serializes the unit of a dimension, such that it is not mistaken for an
+    exponent"""
+    if unit[:1] in ("e", "E") and (
+        len(unit) == 1
+        or unit[1] in DIGITS
+        or (unit[1] == "-" and unit[2:3] in DIGITS)
+    ):
+        return escape_code_point(unit[0]) + serialize_name(unit[1:])
+    return serialize_ident(unit)
+
+
+def serialize_ident(ident: str) -> str:
+    """Serializes the given identifier, see
+    https://www.w3.org/TR/cssom-1/#serialize-an-identifier
+    """
+    if ident in ("-", "--"):
+        # would be mistaken for a delimiter, or part of <!-- or -->
+        return "\\" + ident
+    if ident[:1] in DIGITS:
+        return escape_code_point(ident[0]) + serialize_name(ident[1:])
+    if ident[:1] == "-" and ident[1:2] in DIGITS:
+        return "-" + escape_code_point(ident[1]) + serialize_name(ident[2:])
+    return serialize_name(ident)
+
+
+def serialize_name(name: str) -> str:
+    """Serializes something which consists of ident code points, escaping
+    characters as necessary."""
+    res = ""
+    for char in name:
+        if char >= "\x80" or char.isalnum() or char in ("-", "_"):
+            res += char
+        elif char < " " or char == "\x7f":
+            res += escape_code_point(char)
+        else:
+            res += "\\" + char
+    return res
+
+
+def escape_code_point(char: str) -> str:
+    """Escapes the given character by its number. The trailing space is part of
+    the escape, so the following characters are never mistaken for it."""
+    return "\\" + hex(ord(char))[2:] + " "
+
+
 def serialize_string_auto_quote(string: str) -> str:
     """Serializes the given string, automatically choosing the best quote
     character."""
@@ -89,17 +150,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -108,18 +158,8 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
-        char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char < " " or char >= "\x7f":
+            res += escape_code_point(char)
             continue
 
         res += char
diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..d812931 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,7 +3,7 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string_auto_quote
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..289bf14 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -52,3 +51,40 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
+
+
+def serialize_string_auto_quote(string: str) -> str:
+    """Serializes the given string as a string literal, automatically choosing
+    the best quote character."""
+    if '"' in string and "'" not in string:
+        return serialize_string(string, "'")
+    return serialize_string(string, '"')
+
+
+ESCAPE_SEQUENCES = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+}
+
+
+def serialize_string(string: str, quote: str) -> str:
+    """Serializes the given string as a string literal, using the given quote
+    character."""
+    res = quote
+    for char in string:
+        if char == quote:
+            res += "\\" + char
+        elif char in ESCAPE_SEQUENCES:
+            res += ESCAPE_SEQUENCES[char]
+        elif " " <= char < "\x7f":
+            res += char
+        elif char > "\uffff":
+            res += "\\u{" + hex(ord(char))[2:] + "}"
+        else:
+            res += "\\u" + hex(ord(char))[2:].zfill(4)
+    return res + quote
-- 
2.43.0


From 4fc003640ef17856537272f94d893b0410139d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 37/52] fix: protocol-relative, percent-encoded and fragment
 urls in css were not handled when adding hashes

---
 vanillaplusjs/build/css/manips/version_urls.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..58b5644 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -5,8 +5,9 @@ from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from dataclasses import dataclass
-from urllib.parse import urlencode
+from urllib.parse import unquote, urlencode
 import os
+import posixpath
 
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
@@ -78,13 +79,18 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        path = url.partition("#")[0]
+        if not path.startswith("/") or path.startswith("//"):
             return None
 
-        if "?" in url:
+        if "?" in path:
             return None
 
-        path_relative_to_public = url[1:].replace("/", os.path.sep)
+        if path.rsplit("/", 1)[-1] in ("", ".", ".."):
+            return None
+
+        path = posixpath.normpath(unquote(path)).lstrip("/")
+        path_relative_to_public = path.replace("/", os.path.sep)
         path_relative_to_root = os.path.join("src", "public", path_relative_to_public)
 
         if path_relative_to_root == self.relpath:
@@ -110,7 +116,8 @@ class VersionURLsManipulator(CSSManipulator):
             hash_value = f.read()
 
         suffix_to_add = "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
-        new_value = node["value"] + suffix_to_add
+        path, hash_sign, fragment = node["value"].partition("#")
+        new_value = path + suffix_to_add + hash_sign + fragment
 
         cp_node = node.copy()
         cp_node["value"] = new_value
-- 
2.43.0


From 4906a61badf5ac92f04a243dcd5846d5d6cd0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 38/52] fix: inline images in css were written undecoded, or to
 files named after other parts of their address

---
 .../build/css/manips/outline_image_data.py    | 90 ++++++++++++++-----
 1 file changed, 69 insertions(+), 21 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..4dbe454 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -1,4 +1,5 @@
-from typing import Dict, List, Literal, Optional, Set
+from dataclasses import dataclass
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -6,7 +7,9 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote, urlencode
+from urllib.parse import unquote_to_bytes, urlencode
+import base64
+import binascii
 import re
 import os
 
@@ -14,10 +17,57 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
 IMAGE_DATA_REGEX = re.compile(
-    r'^data:image/(?P<image_type>[^;,]+)[;,](?P<image_data>[^"]+)$'
+    r"data:image/(?P<image_type>[a-zA-Z0-9][a-zA-Z0-9.+\-]*)"
+    r"(?P<parameters>(?:;[^;,]*)*),(?P<image_data>[^#]+)(?P<fragment>#.*)?",
+    flags=re.DOTALL,
 )
 """Matches an image data source"""
 
+ASCII_WHITESPACE = b" \t\n\f\r"
+
+
+@dataclass
+class ImageData:
+    """A parsed image data source"""
+
+    extension: str
+    """The extension for a file with this type of image, without the dot"""
+
+    data: bytes
+    """The contents of the image"""
+
+    fragment: str
+    """The fragment of the url including the hash sign, or an empty string"""
+
+
+def parse_image_data(url: str) -> Optional[ImageData]:
+    """Parses the given url as an image data source. Returns None if it's
+    something else.
+    """
+    match = IMAGE_DATA_REGEX.fullmatch(url)
+    if match is None:
+        return None
+
+    data = unquote_to_bytes(match.group("image_data"))
+    if match.group("parameters").lower().endswith(";base64"):
+        data = data.translate(None, ASCII_WHITESPACE)
+        if len(data) % 4 == 0:
+            for _ in range(2):
+                if data.endswith(b"="):
+                    data = data[:-1]
+        if data.endswith(b"="):
+            return None
+        try:
+            data = base64.b64decode(data + b"=" * (-len(data) % 4), validate=True)
+        except binascii.Error:
+            return None
+
+    return ImageData(
+        extension=match.group("image_type").split("+", 1)[0],
+        data=data,
+        fragment=match.group("fragment") or "",
+    )
+
 
 class OutlineImageDataManipulator(CSSManipulator):
     """When encountering a url function whose value is an image data source,
@@ -39,7 +89,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
-        self.image_relpath_by_data: Optional[Dict[str, str]] = dict()
+        self.image_relpath_by_data: Dict[Tuple[str, bytes], str] = dict()
         self.image_counter = 0
 
         self.skip_next_url_function = False
@@ -57,7 +107,7 @@ class OutlineImageDataManipulator(CSSManipulator):
     def start_mark(self, node: CSSToken) -> bool:
         if node["type"] != CSSTokenType.function:
             return False
-        if node["value"] != "url":
+        if node["value"].lower() != "url":
             return False
         if self.skip_next_url_function:
             self.skip_next_url_function = False
@@ -74,7 +124,7 @@ class OutlineImageDataManipulator(CSSManipulator):
                 node["type"] == CSSTokenType.function
             ), "continue_mark in state expecting_url should get a function"
             assert (
-                node["value"] == "url"
+                node["value"].lower() == "url"
             ), "continue_mark in state expecting_url should get a url function"
             self.state = "expecting_string"
             return None
@@ -89,25 +139,23 @@ class OutlineImageDataManipulator(CSSManipulator):
             self.state = None
             return result
 
-        match = IMAGE_DATA_REGEX.match(node["value"])
-        if match is None:
+        image = parse_image_data(node["value"])
+        if image is None:
             self.skip_next_url_function = True
             result = self.stack
             self.stack = None
             self.state = None
             return result
 
-        image_type = match.group("image_type")
-        image_data = match.group("image_data")
-        out_relpath = self.image_relpath_by_data.get(image_data)
+        image_key = (image.extension, image.data)
+        out_relpath = self.image_relpath_by_data.get(image_key)
         need_to_create = out_relpath is None
         if need_to_create:
             self.image_counter += 1
-            file_ext = image_type.split("+", 1)[0]
             out_relpath = os.path.join(
-                self.image_out_folder, f"{self.image_counter}.{file_ext}"
+                self.image_out_folder, f"{self.image_counter}.{image.extension}"
             )
-            self.image_relpath_by_data[image_data] = out_relpath
+            self.image_relpath_by_data[image_key] = out_relpath
 
         result: List[CSSToken] = [
             self.stack[0],
@@ -123,6 +171,8 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.skip_next_url_function = True
 
         if self.mode == "scan":
+            # so that it's not mistaken for a file which needs a version
+            result[1]["value"] += "?" + urlencode({"v": "tmp", "pv": PROCESSOR_VERSION})
             if need_to_create:
                 self.produces.add(out_relpath)
                 hash_scan_result = hash_handler.scan_file(self.context, out_relpath)
@@ -132,13 +182,10 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
-                self.reused.add(out_relpath)
-            else:
-                self.produced.add(out_relpath)
-                makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "w", newline="\n") as f:
-                    f.write(unquote(image_data))
+            self.produced.add(out_relpath)
+            makedirs_safely(os.path.dirname(out_path))
+            with open(out_path, "wb") as f:
+                f.write(image.data)
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
@@ -151,6 +198,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         result[1]["value"] += "?" + urlencode(
             {"v": hash_value, "pv": PROCESSOR_VERSION}
         )
+        result[1]["value"] += image.fragment
 
         return result
 
-- 
2.43.0


From 15990fd42add0824b2fb406f7174d1ed6b1cb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 39/52] fix: js constants that are null, lists, objects or not
 finite were not written as javascript, and an old file was kept

---
 vanillaplusjs/build/handlers/js_constants.py | 49 +++++++++++++-------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index d812931..fb02298 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -8,6 +8,7 @@ import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import math
 import os
 
 
@@ -32,23 +33,20 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
     target_relpath = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
     target_path = os.path.join(context.folder, target_relpath)
-    if os.path.exists(target_path):
-        reused.add(target_relpath)
-    else:
-        produced.add(target_relpath)
+    produced.add(target_relpath)
 
-        constants = context.js_constants.shared.copy()
-        if context.dev:
-            constants.update(context.js_constants.dev)
-        else:
-            constants.update(context.js_constants.prod)
+    constants = context.js_constants.shared.copy()
+    if context.dev:
+        constants.update(context.js_constants.dev)
+    else:
+        constants.update(context.js_constants.prod)
 
-        makedirs_safely(os.path.dirname(target_path))
-        with open(target_path, "w", newline="\n") as f:
-            if not constants:
-                f.write("\n")
-            for key, value in constants.items():
-                f.write(f"export const {key} = {jsify(value)};\n")
+    makedirs_safely(os.path.dirname(target_path))
+    with open(target_path, "w", newline="\n") as f:
+        if not constants:
+            f.write("\n")
+        for key, value in constants.items():
+            f.write(f"export const {key} = {jsify(value)};\n")
 
     build_result = vanillaplusjs.build.handlers.hash.build_file(context, target_relpath)
     children.update(build_result.children)
@@ -70,7 +68,26 @@ def jsify(val) -> str:
     if val is False:
         return "false"
 
+    if val is None:
+        return "null"
+
+    if isinstance(val, float) and not math.isfinite(val):
+        if math.isnan(val):
+            return "NaN"
+        return "Infinity" if val > 0 else "-Infinity"
+
     if isinstance(val, (int, float)):
         return str(val)
 
-    return repr(val)
+    if isinstance(val, (list, tuple)):
+        return "[" + ", ".join(jsify(item) for item in val) + "]"
+
+    if isinstance(val, dict):
+        # computed keys, since otherwise __proto__ would not be a regular key
+        return (
+            "{"
+            + ", ".join(f"[{jsify(key)}]: {jsify(item)}" for key, item in val.items())
+            + "}"
+        )
+
+    raise ValueError(f"Not a valid value for a constant: {val!r}")
-- 
2.43.0


From 65e79bee7d6ff8bcfa3cc5fe07768575947c4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 40/52] fix: relative paths of templates, templates which
 include themselves and variables with an empty name did not work

---
 vanillaplusjs/build/html/manips/template.py | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..d0a88b4 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -95,8 +95,9 @@ class TemplateManipulator(HTMLManipulator):
         if cmd := self.try_get_stack_define(parsed_args):
             return self.handle_stack_define(*cmd)
 
-        if cmd := self.try_get_stack_retrieve(parsed_args):
-            return self.handle_stack_retrieve(cmd)
+        key = self.try_get_stack_retrieve(parsed_args)
+        if key is not None:
+            return self.handle_stack_retrieve(key)
 
         return []
 
@@ -129,6 +130,11 @@ class TemplateManipulator(HTMLManipulator):
         return []
 
     def handle_template_import(self, imp: "TemplateImport") -> List[tkn.HTMLToken]:
+        if any(
+            frame.relpath == imp.relpath for frame in [*self.stack, self.current_frame]
+        ):
+            raise ValueError(f"{imp.relpath} is a template which includes itself")
+
         if self.mode == "scan":
             self.dependencies.add(imp.relpath)
         else:
@@ -206,15 +212,16 @@ class TemplateManipulator(HTMLManipulator):
 
         if command_path.startswith("/"):
             # assume relative to src/partials
-            command_path_rel_partials = command_path[1:].replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                "src", "partials", command_path_rel_partials
-            )
+            command_path_base = os.path.join("src", "partials")
         else:
-            command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+            # relative to the file being processed
+            command_path_base = os.path.dirname(self.current_frame.relpath)
+
+        command_path_rel_project_root = os.path.normpath(
+            os.path.join(
+                command_path_base, command_path.lstrip("/").replace("/", os.path.sep)
             )
+        )
 
         for var_key in list(variables.keys()):
             var_val = variables[var_key]
-- 
2.43.0


From 7bedb87c9714cf952b2bf49ab57ad30d9d8fcd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 41/52] fix: pages with several inline scripts, styles with
 attributes, and data blocks were not built or broken

---
 vanillaplusjs/build/html/manips/outline.py | 75 +++++++++++++++++-----
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..cbed23a 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -13,6 +13,33 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
+JAVASCRIPT_TYPES = frozenset(
+    [
+        "",
+        "module",
+        "application/ecmascript",
+        "application/javascript",
+        "application/x-ecmascript",
+        "application/x-javascript",
+        "text/ecmascript",
+        "text/javascript",
+        "text/javascript1.0",
+        "text/javascript1.1",
+        "text/javascript1.2",
+        "text/javascript1.3",
+        "text/javascript1.4",
+        "text/javascript1.5",
+        "text/jscript",
+        "text/livescript",
+        "text/x-ecmascript",
+        "text/x-javascript",
+    ]
+)
+"""The types of scripts which are javascript; others are data blocks or
+something else which the browser does not execute, such as import maps
+"""
+
+
 class OutlineManipulator(HTMLManipulator):
     """Upon encountering a script tag without a src or a style
     tag, this will add a new script tag with the src pointing to the generated
@@ -78,38 +105,26 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
@@ -199,19 +214,47 @@ class OutlineManipulator(HTMLManipulator):
             self.start_tag_attrs = None
             return result
 
+        if node["type"] == "Comment":
+            # there are no comments in scripts and styles, it's just text
+            self.outlining_to.write(f"<!--{node['data']}-->")
+            return None
+
         assert node["type"] in ("Characters", "SpaceCharacters"), node
         self.outlining_to.write(node["data"])
         return None
 
+    def _open_outlining_to(self) -> io.TextIOBase:
+        """Opens the file for the script or style that we are outlining, creating
+        the folder that it's in. We or another process which is handling another
+        page may have removed that folder because it was empty.
+        """
+        path = os.path.join(self.context.folder, self.outlining_to_path)
+        for _ in range(10):
+            try:
+                makedirs_safely(os.path.dirname(path))
+                return open(path, "w")
+            except FileNotFoundError:
+                pass
+
+        makedirs_safely(os.path.dirname(path))
+        return open(path, "w")
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
             and node["name"] == "script"
+            and not node.get("namespace")
             and (None, "src") not in node["data"]
+            and node["data"].get((None, "type"), "").strip().lower() in JAVASCRIPT_TYPES
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-        return node["type"] == "StartTag" and node["name"] == "style"
+        return (
+            node["type"] == "StartTag"
+            and node["name"] == "style"
+            and not node.get("namespace")
+            and node["data"].get((None, "type"), "").lower() in ("", "text/css")
+        )
 
     def scan_result(self) -> ScanFileResult:
         return ScanFileResult(
-- 
2.43.0


From e9ceed9389209c9b6177d0c8562960fd6d743071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 42/52] fix: regular expressions, templates, numbers, escapes
 and unusual names in scripts were taken for something else

---
 vanillaplusjs/build/ioutil.py        |  11 +-
 vanillaplusjs/build/js/serializer.py |   2 +
 vanillaplusjs/build/js/token.py      |   6 +
 vanillaplusjs/build/js/tokenizer.py  | 519 +++++++++++++++++++--------
 4 files changed, 385 insertions(+), 153 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 1f9e96f..b98bfef 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -2,7 +2,7 @@
 """
 
 
-from typing import Optional
+from typing import Optional, Pattern
 import re
 from io import TextIOBase
 import time
@@ -105,8 +105,11 @@ class PreprocessedTextIO:
     preprocessing described at https://www.w3.org/TR/css-syntax-3/#input-preprocessing
     """
 
-    def __init__(self, fp: PeekableTextIO) -> None:
+    def __init__(
+        self, fp: PeekableTextIO, newlines: Pattern[str] = CARRIAGE_RETURN_LIKE
+    ) -> None:
         self.fp = fp
+        self.newlines = newlines
 
     def _read(self, n: int = -1) -> Optional[str]:
         """Reads and advances n characters. If n is -1, then reads all
@@ -125,7 +128,7 @@ class PreprocessedTextIO:
                 # consume both; the pair is replaced with one newline below
                 res += self.fp.read(1)
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.newlines.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
@@ -144,7 +147,7 @@ class PreprocessedTextIO:
         if n >= 1 and len(res) == n + 1 and res[-2:] != "\r\n":
             res = res[:-1]
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.newlines.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 289bf14..8a50a9e 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -38,6 +38,8 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return serialize_string_auto_quote(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
+    elif token["type"] in (JSTokenType.number, JSTokenType.template):
+        return token["value"]
     elif token["type"] == JSTokenType.semicolon:
         return ";"
     elif token["type"] == JSTokenType.invalid:
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..a2186da 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -39,6 +39,12 @@ class JSTokenType(str, Enum):
     """Value is the contents of the matched string literal"""
     semicolon = "Semicolon"
     """Value is None"""
+    number = "NumericLiteral"
+    """Value is the matched number"""
+    template = "Template"
+    """Value is the matched part of a template, including the characters which start and
+    end it: '`foo`', '`foo${', '}foo${' or '}foo`'. What's substituted is not included.
+    """
 
     # DIFFERENT FROM SPEC
     regex = "RegularExpressionLiteral"
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..3eaddbb 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -2,13 +2,15 @@
 of tokens.
 
 This only supports a subset of javascript tokens; in particular, we focus on only
-just enough tokens that for a javascript module we can detect any import statements
-that the document starts with.
+just enough tokens that for a javascript module we can detect any import statements,
+without mistaking what is in a string, template, regular expression or comment for
+something else.
 """
 from io import TextIOBase
-from typing import Generator, Optional, Union
+from typing import Generator, List, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
+import re
 import string
 from .unicode_derived import is_id_start, is_id_continue
 
@@ -30,67 +32,72 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     Returns:
         None
     """
-    peekable = PreprocessedTextIO(PeekableTextIO(fp))
+    peekable = PreprocessedTextIO(PeekableTextIO(fp), NEWLINES)
     del fp
 
-    while peeked := peekable.peek(1):
-        if (ws := _consume_whitespace(peekable)) is not None:
-            yield ws
-            continue
+    context = _Context()
+    if peekable.peek(2) == "#!":
+        yield _consume_hashbang(peekable)
 
-        if (comment := _consume_comment(peekable)) is not None:
-            yield comment
-            continue
+    while peekable.peek(1):
+        token = _consume_token(peekable, context)
+        context.update(token)
+        yield token
 
-        if (identifier := _consume_identifier(peekable)) is not None:
-            yield identifier
-            continue
+    yield JSToken(type=JSTokenType.eof, value=None)
 
-        if _is_newline(peeked):
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.line_terminator, value=None)
-            continue
 
-        if peeked == "{":
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
-            continue
+def _consume_token(
+    peekable: PeekableTextIO, context: "_Context"
+) -> Union[JSToken, JSTokenWithExtra]:
+    """Consumes the next token from the given peekable, which is not at the end"""
+    if (ws := _consume_whitespace(peekable)) is not None:
+        return ws
 
-        if peeked == "}":
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.close_curly_bracket, value=None)
-            continue
+    if (comment := _consume_comment(peekable)) is not None:
+        return comment
 
-        if peeked == "*":
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.asterisk, value=None)
-            continue
+    if (number := _consume_number(peekable)) is not None:
+        return number
 
-        if peeked == ",":
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.comma, value=None)
-            continue
+    if (identifier := _consume_identifier(peekable)) is not None:
+        return identifier
 
-        if peeked == ";":
-            peekable.read(1)
-            yield JSToken(type=JSTokenType.semicolon, value=None)
-            continue
+    peeked = peekable.peek(1)
+    if _is_newline(peeked):
+        peekable.read(1)
+        return JSToken(type=JSTokenType.line_terminator, value=None)
 
-        if peeked == '"':
-            yield _consume_string_literal(peekable)
-            continue
+    if peeked == "`" or (peeked == "}" and context.in_template):
+        return _consume_template(peekable)
 
-        if peeked == "'":
-            yield _consume_string_literal(peekable)
-            continue
+    if peeked == "{":
+        peekable.read(1)
+        return JSToken(type=JSTokenType.open_curly_bracket, value=None)
 
-        if peeked == "/":
-            yield _consume_regex(peekable)
-            continue
+    if peeked == "}":
+        peekable.read(1)
+        return JSToken(type=JSTokenType.close_curly_bracket, value=None)
 
-        yield JSToken(type=JSTokenType.invalid, value=peekable.read(1))
+    if peeked == "*":
+        peekable.read(1)
+        return JSToken(type=JSTokenType.asterisk, value=None)
 
-    yield JSToken(type=JSTokenType.eof, value=None)
+    if peeked == ",":
+        peekable.read(1)
+        return JSToken(type=JSTokenType.comma, value=None)
+
+    if peeked == ";":
+        peekable.read(1)
+        return JSToken(type=JSTokenType.semicolon, value=None)
+
+    if peeked == '"' or peeked == "'":
+        return _consume_string_literal(peekable)
+
+    if peeked == "/" and context.regex_allowed:
+        return _consume_regex(peekable)
+
+    return JSToken(type=JSTokenType.invalid, value=peekable.read(1))
 
 
 def tokenize_and_close(fp: TextIOBase) -> Generator[JSToken, None, None]:
@@ -101,6 +108,168 @@ def tokenize_and_close(fp: TextIOBase) -> Generator[JSToken, None, None]:
         fp.close()
 
 
+KEYWORDS_BEFORE_EXPRESSION = frozenset(
+    "await case default delete do else extends in instanceof new of return throw "
+    "typeof void yield".split()
+)
+"""Keywords which are followed by an expression or statement, not by an operator"""
+
+PARENTHESIS_KEYWORDS = frozenset(("if", "while", "for", "with"))
+"""Keywords which are followed by something in parenthesis and then a statement"""
+
+PUNCTUATION = {
+    JSTokenType.open_curly_bracket: "{",
+    JSTokenType.close_curly_bracket: "}",
+    JSTokenType.asterisk: "*",
+    JSTokenType.comma: ",",
+    JSTokenType.semicolon: ";",
+}
+
+
+class _Context:
+    """Keeps track of the tokens so far, to the extent necessary to tell if a slash
+    starts a regular expression and if a curly bracket ends a template substitution
+    """
+
+    def __init__(self) -> None:
+        self.regex_allowed: bool = True
+        """True if an expression may start here, i.e., a slash starts a regular
+        expression. False if a slash is a division"""
+
+        self.previous: str = ""
+        """The previous keyword or punctuation, blank at the start of the document and
+        for everything else"""
+
+        self.before_previous: str = ""
+        """The value of previous for the token before"""
+
+        self.before_sign: bool = True
+        """The value of regex_allowed before the previous plus or minus sign"""
+
+        self.adjacent: bool = False
+        """True if there's nothing between the previous token and this one"""
+
+        self.brackets: List[str] = []
+        """The brackets which are open: "statement(" if they're followed by a statement,
+        "block{", "object{", "${", or otherwise "(" and "[" """
+
+    @property
+    def in_template(self) -> bool:
+        """True if a closing curly bracket continues a template"""
+        return bool(self.brackets) and self.brackets[-1] == "${"
+
+    def update(self, token: JSToken) -> None:
+        """Updates this context with the given token, which is the next one"""
+        if token["type"] in (
+            JSTokenType.whitespace,
+            JSTokenType.line_terminator,
+            JSTokenType.comment,
+        ):
+            self.adjacent = False
+            return
+
+        previous = self._update(token)
+        self.before_previous = self.previous
+        self.previous = previous
+        self.adjacent = True
+
+    def _update(self, token: JSToken) -> str:
+        """Updates everything which depends on what the token is, and returns the new
+        value for previous
+        """
+        if token["type"] == JSTokenType.template:
+            if token["value"].startswith("}"):
+                self.brackets.pop()
+            self.regex_allowed = token["value"].endswith("${")
+            if not self.regex_allowed:
+                return ""
+            self.brackets.append("${")
+            return "${"
+
+        if token["type"] == JSTokenType.identifier:
+            is_property = self.previous == "." or self.previous == "#"
+            self.regex_allowed = (
+                not is_property and token["value"] in KEYWORDS_BEFORE_EXPRESSION
+            )
+            return "" if is_property else token["value"]
+
+        value = PUNCTUATION.get(token["type"])
+        if value is None and token["type"] == JSTokenType.invalid:
+            value = token["value"]
+        if value is None or len(value) != 1:
+            self.regex_allowed = False
+            return ""
+
+        if value == "(" or value == "[" or value == "{":
+            self.brackets.append(self._get_bracket(value))
+            self.regex_allowed = True
+            return value
+
+        if value == ")" or value == "]" or value == "}":
+            bracket = self.brackets.pop() if self.brackets else ""
+            self.regex_allowed = bracket == "statement(" or bracket == "block{"
+            return value
+
+        if self.adjacent and value == ">" and self.previous == "=":
+            self.regex_allowed = True
+            return "=>"
+
+        if self.adjacent and value == "." and self.previous == ".":
+            # part of a spread, not of a property
+            return ".."
+
+        if value == "." and self.previous == "..":
+            return "..."
+
+        if value == "+" or value == "-":
+            if self.adjacent and self.previous == value:
+                # it's not an operator between two operands, so it changes nothing
+                self.regex_allowed = self.before_sign
+                return value * 2
+            self.before_sign = self.regex_allowed
+
+        self.regex_allowed = True
+        return value
+
+    def _get_bracket(self, value: str) -> str:
+        """Determines what to store for the given opening bracket"""
+        if value == "(":
+            if self.previous in PARENTHESIS_KEYWORDS or (
+                self.previous == "await" and self.before_previous == "for"
+            ):
+                return "statement("
+            return value
+
+        if value == "[":
+            return value
+
+        if not self.regex_allowed or self.previous in (
+            *("", ";", "{", "}", ")", "=>"),
+            *("else", "do"),
+        ):
+            return "block{"
+
+        if (
+            self.previous == ":"
+            and self.brackets[-1:] != ["object{"]
+            and self.brackets[-1:] != ["("]
+            and self.brackets[-1:] != ["["]
+            and self.brackets[-1:] != ["${"]
+        ):
+            # a label
+            return "block{"
+
+        return "object{"
+
+
+def _consume_hashbang(peekable: PeekableTextIO) -> JSToken:
+    """Consumes the line, which starts with a hashbang, from the given peekable"""
+    res = ""
+    while (peeked := peekable.peek(1)) and not _is_newline(peeked):
+        res += peekable.read(1)
+    return JSToken(type=JSTokenType.invalid, value=res)
+
+
 def _consume_whitespace(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes as much whitespace as possible from the given peekable
     https://tc39.es/ecma262/#sec-white-space
@@ -161,16 +330,46 @@ RESERVED_IDENTIFIERS = {
 }
 
 
+def _consume_number(peekable: PeekableTextIO) -> Optional[JSToken]:
+    """Consumes a numeric literal from the given peekable, if one is present. Anything
+    directly after it which belongs to an identifier or number is included.
+    """
+    peeked = peekable.peek(2)
+    if peeked[0] not in string.digits and not (
+        peeked[0] == "." and peeked[1:] and peeked[1] in string.digits
+    ):
+        return None
+
+    res = ""
+    while peeked := peekable.peek(1):
+        if not (
+            peeked == "."
+            or _is_identifier_part(peeked)
+            or (peeked in "+-" and EXPONENT_START.fullmatch(res))
+        ):
+            break
+        res += peekable.read(1)
+
+    return JSToken(type=JSTokenType.number, value=res)
+
+
+EXPONENT_START = re.compile(r"(\.[0-9]|[0-9])[0-9_]*(\.[0-9_]*)?[eE]")
+"""Matches a decimal literal which may continue with the sign of its exponent"""
+
+
 def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes an identifier from the given peekable, if one is present."""
     res = ""
     while peeked := peekable.peek(1):
-        if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-            peekable.read(1)
-            res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        if peeked == "\\":
+            escaped = _peek_unicode_escape_sequence(peekable)
+            if escaped is None:
+                break
+            peekable.read(len(escaped))
+            res += _parse_unicode_escape_sequence(escaped)
+        elif not res and (peeked in "$_" or is_id_start(peeked)):
             res += peekable.read(1)
-        elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
+        elif res and _is_identifier_part(peeked):
             res += peekable.read(1)
         else:
             break
@@ -184,44 +383,39 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     return JSToken(type=JSTokenType.identifier, value=res)
 
 
-def _consume_unicode_escape_sequence(peekable: PeekableTextIO) -> Optional[str]:
-    """Consumes a unicode escape sequence from the given peekable, if one is present.
-    This consumes something like 'u1234' or 'u{1234}', and does not expect to start
-    on a slash. Returns the actual unicode character; returns None if theres a parse
-    error
+def _is_identifier_part(char: str) -> bool:
+    """Returns true if an identifier can continue with the given character"""
+    return char in "$\u200C\u200D" or is_id_continue(char)
+
+
+def _peek_unicode_escape_sequence(peekable: PeekableTextIO) -> Optional[str]:
+    """If the next characters are a unicode escape sequence, i.e., something like
+    '\\u1234' or '\\u{1234}', returns it without advancing, otherwise returns None.
     """
-    if peekable.peek(1) != "u":
+    res = peekable.peek(6)
+    if res is None or not res.startswith("\\u"):
         return None
-    peekable.read(1)
 
-    res = ""
-    if peekable.peek(1) == "{":
-        peekable.read(1)
-        while True:
-            peeked = peekable.peek(1)
-            if not peeked:
-                return None
-            if peeked == "}":
-                break
-            res += peekable.read(1)
+    if not res.startswith("\\u{"):
+        return res if UNICODE_ESCAPE.fullmatch(res) else None
 
-        peekable.read(1)
+    length = 4
+    res = peekable.peek(length)
+    while len(res) == length and res[-1] in string.hexdigits:
+        length += 1
+        res = peekable.peek(length)
 
-        if any(c not in string.hexdigits for c in res):
-            return None
+    if not UNICODE_ESCAPE.fullmatch(res) or int(res[3:-1], 16) > 0x10FFFF:
+        return None
+    return res
 
-        return chr(int(res, 16))
 
-    while len(res) < 4:
-        peeked = peekable.peek(1)
-        if not peeked:
-            return None
+UNICODE_ESCAPE = re.compile(r"\\u(?:[0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})")
 
-        if peeked not in string.hexdigits:
-            return None
-        res += peekable.read(1)
 
-    return chr(int(res, 16))
+def _parse_unicode_escape_sequence(escaped: str) -> str:
+    """Returns the character for the given unicode escape sequence"""
+    return chr(int(escaped[2:].strip("{}"), 16))
 
 
 def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
@@ -229,43 +423,90 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     peeked character is a quote.
     """
     quote = peekable.read(1)
+    raw = quote
     res = ""
+    valid = True
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
-            return JSToken(type=JSTokenType.invalid, value=quote + res)
+        if not peeked or peeked == "\n":
+            return JSToken(type=JSTokenType.invalid, value=raw)
+        if peeked == "\\":
+            escaped = _consume_escape_sequence(peekable)
+            raw += escaped
+            value = _parse_escape_sequence(escaped)
+            if value is None:
+                valid = False
+            else:
+                res += value
+            continue
+        raw += peekable.read(1)
         if peeked == quote:
-            peekable.read(1)
+            if not valid:
+                return JSToken(type=JSTokenType.invalid, value=raw)
             return JSToken(type=JSTokenType.string_literal, value=res)
+        res += peeked
+
+
+LEGACY_OCTAL_ESCAPE = re.compile(r"\\(?:[0-3][0-7]{0,2}|[4-7][0-7]?)")
+
+HEX_ESCAPE = re.compile(r"\\x[0-9a-fA-F]{2}")
+
+
+def _consume_escape_sequence(peekable: PeekableTextIO) -> str:
+    """Consumes an escape sequence within a string, assuming that the current peeked
+    character is a backslash.
+    """
+    escaped = _peek_unicode_escape_sequence(peekable)
+    if escaped is None:
+        peeked = peekable.peek(4)
+        match = LEGACY_OCTAL_ESCAPE.match(peeked) or HEX_ESCAPE.match(peeked)
+        escaped = match.group() if match is not None else peeked[:2]
+    return peekable.read(len(escaped))
+
+
+ESCAPED_CHARACTERS = {
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "b": "\b",
+    "f": "\f",
+    "v": "\v",
+    "\n": "",
+    "\u2028": "",
+    "\u2029": "",
+}
+
+
+def _parse_escape_sequence(escaped: str) -> Optional[str]:
+    """Returns what the given escape sequence stands for, or None if it's not valid"""
+    if UNICODE_ESCAPE.fullmatch(escaped):
+        return _parse_unicode_escape_sequence(escaped)
+    if HEX_ESCAPE.fullmatch(escaped):
+        return chr(int(escaped[2:], 16))
+    if LEGACY_OCTAL_ESCAPE.fullmatch(escaped):
+        return chr(int(escaped[1:], 8))
+    if escaped[1:] in ("", "u", "x"):
+        return None
+    return ESCAPED_CHARACTERS.get(escaped[1:], escaped[1:])
+
+
+def _consume_template(peekable: PeekableTextIO) -> JSToken:
+    """Consumes a template up to and including its end or the start of the next
+    substitution, assuming the current peeked character is either a backtick or
+    the curly bracket which ends a substitution.
+    """
+    res = peekable.read(1)
+    while peeked := peekable.peek(1):
         if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-                peekable.read(1)
-                res += _consume_unicode_escape_sequence(peekable)
-            else:
-                peekable.read(1)
-                peeked = peekable.peek(1)
-                if not peeked:
-                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
-
-                escaped = peekable.read(1)
-                if escaped == "n":
-                    res += "\n"
-                elif escaped == "r":
-                    res += "\r"
-                elif escaped == "t":
-                    res += "\t"
-                elif escaped == "b":
-                    res += "\b"
-                elif escaped == "f":
-                    res += "\f"
-                elif escaped == "v":
-                    res += "\v"
-                elif escaped == "0":
-                    res += "\0"
-                else:
-                    res += escaped
-        else:
-            res += peekable.read(1)
+            res += peekable.read(2)
+            continue
+        if peekable.peek(2) == "${":
+            res += peekable.read(2)
+            break
+        res += peekable.read(1)
+        if peeked == "`":
+            break
+    return JSToken(type=JSTokenType.template, value=res)
 
 
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
@@ -273,27 +514,29 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     the current peeked character is a slash.
     """
     peekable.read(1)
-    group_level = 0
+    in_class = False
     res = ""
     while True:
         peeked = peekable.peek(1)
         if not peeked or _is_newline(peeked):
             return JSToken(type=JSTokenType.invalid, value="/" + res)
-        if group_level == 0 and peeked == "/":
+        if not in_class and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
-            res += peekable.read(2)
-            continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
-        if peeked == "[":
-            group_level += 1
+        if peeked == "\\":
+            res += peekable.read(1)
+            peeked = peekable.peek(1)
+            if not peeked or _is_newline(peeked):
+                continue
+        elif peeked == "[":
+            in_class = True
+        elif peeked == "]":
+            in_class = False
         res += peekable.read(1)
     flags = ""
     while True:
         peeked = peekable.peek(1)
-        if peeked is None or peeked not in "igmsuyd":
+        if not peeked or not _is_identifier_part(peeked):
             break
         flags += peekable.read(1)
 
@@ -304,6 +547,9 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     )
 
 
+NEWLINES = re.compile(r"\r\n|\r")
+"""Everything which is the same as a newline; unlike in css not a form feed"""
+
 WHITESPACE_CHARACTERS = frozenset(
     "\u0009\u000B\u000C\uFEFF\u0020\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f\u3000"
 )
@@ -318,28 +564,3 @@ def _is_newline(char: str) -> bool:
     """Returns true if the given character is a newline character."""
     # Due to the noncompliant preprocessing we can ignore carriage returns
     return char in "\n\u2028\u2029"
-
-
-def _is_unicode_escape_sequence(nine: str) -> bool:
-    """Determines if the given nine characters could be consumed, perhaps partially,
-    to get a valid unicode escape sequence.
-    """
-    if nine is None or len(nine) < 2:
-        return False
-
-    if nine[0] != "u":
-        return False
-
-    if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
-            if nine[i] == "}":
-                if i == 2:
-                    return False
-                hex_num = int(nine[2:i], 16)
-                return hex_num <= 0x10FFFF
-            if nine[i] not in string.hexdigits:
-                return False
-
-        return False
-
-    return len(nine) >= 5 and all(c in string.hexdigits for c in nine[1:5])
-- 
2.43.0


From a43e0c14971866dd0e28f2e96a93bd9b5c9253d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 43/52] fix: re-exports, imports with comments between or with
 unusual names or paths did not get the hash of the imported script

---
 vanillaplusjs/build/js/manips/hash_imports.py | 259 +++++++++++-------
 1 file changed, 164 insertions(+), 95 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..6ae58c0 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -5,11 +5,25 @@ from vanillaplusjs.build.js.yield_manipulator import JSYieldManipulator
 from vanillaplusjs.build.js.token import JSToken, JSTokenType
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
-from urllib.parse import urlencode
+from urllib.parse import quote, unquote, urlencode
 import os
 
 
-WHITESPACE_OR_TERM = {JSTokenType.whitespace, JSTokenType.line_terminator}
+WHITESPACE_OR_TERM = {
+    JSTokenType.whitespace,
+    JSTokenType.line_terminator,
+    JSTokenType.comment,
+}
+"""Everything which may be between any two tokens without making a difference"""
+
+BINDING = {JSTokenType.identifier, JSTokenType.keyword_as, JSTokenType.keyword_from}
+"""The tokens which can be the name of an import within this module"""
+
+EXPORT_NAME = {*BINDING, JSTokenType.keyword_import, JSTokenType.string_literal}
+"""The tokens which can be the name of an export of a module"""
+
+UNQUOTED = "/!$&'()*+,;=:@[]|~^"
+"""The special characters which are not percent-encoded in the path of a url"""
 
 
 class HashImportsManipulator(JSYieldManipulator):
@@ -25,6 +39,10 @@ class HashImportsManipulator(JSYieldManipulator):
         self.children: Optional[Set[str]] = set() if mode == "build" else None
 
         self.skip_next_import = False
+        self.skip_next_export = False
+
+        self.previous: Optional[JSToken] = None
+        """The previous token that was handled, ignoring whitespace and comments"""
 
     def handle(
         self, token: JSToken
@@ -33,6 +51,25 @@ class HashImportsManipulator(JSYieldManipulator):
             self.skip_next_import = True
             return False
 
+        if token["type"] in WHITESPACE_OR_TERM:
+            return False
+
+        previous = self.previous
+        self.previous = token
+        if (
+            previous is not None
+            and previous["type"] == JSTokenType.invalid
+            and previous["value"] == "."
+        ):
+            # the name of a property
+            return False
+
+        if token["type"] == JSTokenType.identifier and token["value"] == "export":
+            if self.skip_next_export:
+                self.skip_next_export = False
+                return False
+            return (yield from self._handle_export())
+
         if token["type"] != JSTokenType.keyword_import:
             return False
         if self.skip_next_import:
@@ -44,63 +81,28 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._handle_import(token["value"])
 
         expecting_from = False
-        if token["type"] == JSTokenType.identifier:
+        if token["type"] in BINDING:
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for default export")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
+            if token["type"] == JSTokenType.comma:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
             else:
                 expecting_from = True
 
         if not expecting_from and token["type"] == JSTokenType.asterisk:
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for asterisk")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            else:
-                expecting_from = True
+            if token["type"] != JSTokenType.keyword_as:
+                return self._mark_import_bad("expected as after asterisk")
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] not in BINDING:
+                return self._mark_import_bad("expected alias for asterisk")
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            expecting_from = True
 
         if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
+            if not (yield from self._skip_names()):
+                return self._mark_import_bad("expected named import")
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            while token["type"] != JSTokenType.close_curly_bracket:
-                if token["type"] == JSTokenType.identifier:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                    if token["type"] == JSTokenType.keyword_as:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] != JSTokenType.identifier:
-                            return self._mark_import_bad(
-                                "expected alias for named export"
-                            )
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] not in (
-                            JSTokenType.comma,
-                            JSTokenType.close_curly_bracket,
-                        ):
-                            return self._mark_import_bad(
-                                "expected comma or close curly bracket"
-                            )
-                    if token["type"] == JSTokenType.comma:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    return self._mark_import_bad("expected named export")
             expecting_from = True
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
 
         if not expecting_from:
             return self._mark_import_bad("expected next import")
@@ -114,39 +116,128 @@ class HashImportsManipulator(JSYieldManipulator):
 
         return self._handle_import(token["value"])
 
-    def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
-        if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
-            return self._mark_import_bad("unexpected path format")
-        if any(ch in import_path for ch in "?#"):
-            return self._mark_import_bad("path contains invalid characters")
-
-        if import_path.startswith("/"):
-            rel_to_root = os.path.join(
-                "src", "public", import_path[1:].replace("/", os.path.sep)
-            )
+    def _handle_export(
+        self,
+    ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
+        """Handles the tokens after an export. It's left alone unless it re-exports
+        something from a local module.
+        """
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        if token["type"] == JSTokenType.asterisk:
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] == JSTokenType.keyword_as:
+                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                if token["type"] not in EXPORT_NAME:
+                    return self._ignore_export()
+                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        elif token["type"] == JSTokenType.open_curly_bracket:
+            if not (yield from self._skip_names()):
+                return self._ignore_export()
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
         else:
-            abs_import_path = os.path.abspath(
-                os.path.join(
-                    self.context.folder,
-                    os.path.dirname(self.relpath),
-                    import_path.replace("/", os.path.sep),
-                )
-            )
-            rel_to_root = os.path.relpath(
-                abs_import_path, os.path.abspath(self.context.folder)
-            )
-            rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
-            import_path = "/" + rel_to_public.replace(os.path.sep, "/")
+            return self._ignore_export()
+
+        if token["type"] != JSTokenType.keyword_from:
+            return self._ignore_export()
+
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        if token["type"] != JSTokenType.string_literal:
+            return self._ignore_export()
+
+        if self.skip_next_import:
+            self.skip_next_import = False
+            return self._ignore_export()
+
+        location = self._locate(token["value"])
+        if isinstance(location, str):
+            return self._ignore_export()
+
+        self.skip_next_export = True
+        return self._replace_path(*location)
+
+    def _ignore_export(self) -> Literal[False]:
+        self.skip_next_export = True
+        return False
+
+    def _skip_names(self) -> Generator[None, JSToken, bool]:
+        """Skips the imports or exports within curly brackets and the closing curly
+        bracket. Returns False if there's something else.
+        """
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        while token["type"] != JSTokenType.close_curly_bracket:
+            if token["type"] not in EXPORT_NAME:
+                return False
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] == JSTokenType.keyword_as:
+                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                if token["type"] not in EXPORT_NAME:
+                    return False
+                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] == JSTokenType.comma:
+                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            elif token["type"] != JSTokenType.close_curly_bracket:
+                return False
+        return True
+
+    def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
+        location = self._locate(import_path)
+        if isinstance(location, str):
+            return self._mark_import_bad(location)
+
+        self.skip_next_import = True
+        return self._replace_path(*location)
+
+    def _locate(self, import_path: str) -> Union[str, Tuple[str, str]]:
+        """Returns the absolute path of the url the given import refers to, and the
+        path of the corresponding file relative to the public folder. If it does not
+        refer to another file of this website, returns why as a string.
+        """
+        if import_path.startswith("//") or not any(
+            import_path.startswith(prefix) for prefix in ("/", "./", "../")
+        ):
+            return "unexpected path format"
+        if import_path != import_path.strip() or any(
+            ch in "?#\\" or ch < " " for ch in import_path
+        ):
+            return "path contains invalid characters"
+
+        rel_to_public = os.path.relpath(self.relpath, os.path.join("src", "public"))
+        own_path = quote(rel_to_public.replace(os.path.sep, "/"), safe=UNQUOTED)
+
+        segments = [] if import_path.startswith("/") else own_path.split("/")[:-1]
+        new_segments = import_path.lstrip("/").split("/")
+        for segment in new_segments:
+            dots = segment.lower().replace("%2e", ".")
+            if dots == "..":
+                segments = segments[:-1]
+            elif dots != ".":
+                segments.append(segment)
+
+        names = [unquote(segment) for segment in segments]
+        if dots in (".", "..") or any(
+            name in ("", ".", "..") or any(ch in "/\\\0" for ch in name)
+            for name in names
+        ):
+            return "unexpected path format"
+
+        path = os.path.join(*names)
+        if path == rel_to_public:
+            return "module imports itself"
+
+        return "/" + "/".join(segments), path
+
+    def _replace_path(
+        self, import_path: str, rel_to_public: str
+    ) -> Union[Literal[False], List[JSToken]]:
+        """Replaces the final token, which refers to the given file"""
+        rel_to_root = os.path.join("src", "public", rel_to_public)
 
         if self.mode == "scan":
             self.dependencies.add(rel_to_root)
-            self.skip_next_import = True
             return False
 
         self.children.add(rel_to_root)
 
-        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
-
         exp_hash_file = os.path.join(
             self.context.folder, "out", "www", rel_to_public + ".hash"
         )
@@ -159,7 +250,6 @@ class HashImportsManipulator(JSYieldManipulator):
         new_import_path = (
             import_path + "?" + urlencode({"v": file_hash, "pv": PROCESSOR_VERSION})
         )
-        self.skip_next_import = True
         return self.stack[:-1] + [
             JSToken(type=JSTokenType.string_literal, value=new_import_path)
         ]
@@ -172,27 +262,6 @@ class HashImportsManipulator(JSYieldManipulator):
             if token["type"] not in to_skip:
                 return token
 
-    def _expect_sequence(
-        self, exp: List[JSTokenType], ignore: Set[JSTokenType]
-    ) -> Generator[None, JSToken, bool]:
-        for exp_token in exp:
-            act_token = yield from self._skip_types(ignore)
-            if act_token["type"] != exp_token:
-                return False
-        return True
-
-    def _expect_alias(
-        self, token: Optional[JSToken] = None
-    ) -> Generator[None, JSToken, bool]:
-        if token is None:
-            token = yield
-        if token != JSTokenType.keyword_as:
-            return False
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-        if token["type"] != JSTokenType.identifier:
-            return False
-        return True
-
     def _mark_import_bad(self, hint="") -> List[JSToken]:
         return [
             JSToken(
-- 
2.43.0


From 00aafd2da4ce83e92c681e96878d5f4d8ece9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 44/52] fix: imports of style rules failed for selectors with
 from, at-statements, repeated rules, rules of other sheets and missing
 semicolons

---
 vanillaplusjs/build/css/manips/nest.py | 79 ++++++++++++++++++--------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a9143a8..2a323ed 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -218,6 +218,9 @@ PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
     r"^\s*!\s*PREPROCESSOR\s*:\s+import\s+(?P<args>.*)\s*$"
 )
 
+# Regex that matches args which end with the stylesheet to import from
+IMPORT_FROM_RULE = re.compile(r"(?P<prelude>.*)\sFROM\s+(?P<path>/\S*)", re.IGNORECASE)
+
 
 class NestManipulator(CSSManipulator):
     """Allows simple CSS nesting via importing another style into a given
@@ -364,19 +367,13 @@ class NestManipulator(CSSManipulator):
 
         args = match.group("args")
         args = args.strip()
-        try:
-            from_index = args.lower().index("from")
-        except ValueError:
-            from_index = None
+        from_match = IMPORT_FROM_RULE.fullmatch(args)
 
         import_relpath = None
-        if from_index is not None:
-            from_arg = args[from_index + 4 :].strip()
-            if not from_arg.startswith("/") or " " in from_arg:
-                # parse error
-                return
-
-            path_relative_to_public = from_arg[1:].replace("/", os.path.sep)
+        if from_match is not None:
+            path_relative_to_public = from_match.group("path")[1:].replace(
+                "/", os.path.sep
+            )
             path_relative_to_root = os.path.join(
                 "src", "public", path_relative_to_public
             )
@@ -385,7 +382,7 @@ class NestManipulator(CSSManipulator):
             import_relpath = self.context.default_css_file.replace("/", os.path.sep)
 
         import_prelude = (
-            args.strip() if from_index is None else args[:from_index].strip()
+            args if from_match is None else from_match.group("prelude").strip()
         )
         return QualifiedRuleReference(import_relpath, import_prelude)
 
@@ -474,18 +471,16 @@ class NestManipulator(CSSManipulator):
             if token["type"] == CSSTokenType.eof:
                 raise ValueError(f"{imp=}")
 
-            if token["type"] == CSSTokenType.cdo:
-                while token["type"] != CSSTokenType.cdc:
-                    token = next(generator)
-                    if token["type"] == CSSTokenType.eof:
-                        raise ValueError(f"{imp=}")
-                continue
-
             if token["type"] == CSSTokenType.at_keyword:
-                while token["type"] != CSSTokenType.left_curly_bracket:
+                while token["type"] not in (
+                    CSSTokenType.left_curly_bracket,
+                    CSSTokenType.semicolon,
+                ):
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
                         raise ValueError(f"{imp=}")
+                if token["type"] == CSSTokenType.semicolon:
+                    continue
                 nest_level = 1
                 while nest_level > 0:
                     token = next(generator)
@@ -497,7 +492,12 @@ class NestManipulator(CSSManipulator):
                         nest_level -= 1
                 continue
 
-            if token["type"] in (CSSTokenType.whitespace, CSSTokenType.comment):
+            if token["type"] in (
+                CSSTokenType.whitespace,
+                CSSTokenType.comment,
+                CSSTokenType.cdo,
+                CSSTokenType.cdc,
+            ):
                 continue
 
             prelude: List[CSSToken] = [token]
@@ -520,7 +520,8 @@ class NestManipulator(CSSManipulator):
                     )
                 if token["type"] == CSSTokenType.left_curly_bracket:
                     break
-                prelude.append(token)
+                if token["type"] != CSSTokenType.comment:
+                    prelude.append(token)
 
             serialized_prelude = vanillaplusjs.build.css.serializer.serialize_many(
                 prelude
@@ -536,6 +537,13 @@ class NestManipulator(CSSManipulator):
                     continue
 
                 if (nested_import := self._get_import(token)) is not None:
+                    if (
+                        nested_import.relpath != imp.relpath
+                        and nested_import.relpath != self.relpath
+                        and nested_import not in self.referencable_rules.available_rules
+                    ):
+                        self._ensure_child_import_resolved(nested_import)
+
                     if nested_import in self.referencable_rules.available_rules:
                         stack = (
                             self.referencable_rules.available_rules[
@@ -556,7 +564,7 @@ class NestManipulator(CSSManipulator):
                     value.append(token)
                     nest_level = 1
                     while nest_level > 0:
-                        token = next(generator)
+                        token = stack.pop(0) if stack else next(generator)
                         if token["type"] == CSSTokenType.eof:
                             raise ValueError(f"{imp=}")
                         value.append(token)
@@ -574,6 +582,31 @@ class NestManipulator(CSSManipulator):
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            last_type = next(
+                (
+                    token["type"]
+                    for token in reversed(value)
+                    if token["type"]
+                    not in (CSSTokenType.whitespace, CSSTokenType.comment)
+                ),
+                None,
+            )
+            if last_type not in (
+                None,
+                CSSTokenType.semicolon,
+                CSSTokenType.right_curly_bracket,
+            ):
+                # there may be more declarations after the import
+                value.append(CSSToken(type=CSSTokenType.semicolon))
+
+            ref = QualifiedRuleReference(imp.relpath, serialized_prelude)
+            if (
+                ref in self.referencable_rules.available_rules
+                or ref in self.referencable_rules.unresolved_rules
+            ):
+                # only the first rule with a given prelude can be imported
+                continue
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
-- 
2.43.0


From b0bdc937cb704902449b754f3f04fa10ff08f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 45/52] fix: imports on lines with type hints were dependencies
 when scanning, not when building

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..aa7626d 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -28,9 +28,6 @@ class TypeHintsManipulator(JSYieldManipulator):
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
-        if self.mode == "scan":
-            return False
-
         if self._skip_next_line:
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
-- 
2.43.0


From 022161a5f0dbafd70539872d8baefa03b841b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 46/52] fix: pages and image lists with a rejected image did
 not depend on that image

---
 vanillaplusjs/build/handlers/image_glue.py    | 30 +++++++++++++++++--
 .../build/html/manips/images/manip.py         | 15 ++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index ed59d6f..df05b4b 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -149,7 +149,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        return ScanFileResult(
+            dependencies=get_inspected_images(context, data), produces=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -211,7 +213,9 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        return BuildFileResult(
+            children=get_inspected_images(context, data), produced=[], reused=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -286,6 +290,28 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
+def get_inspected_images(context: BuildContext, data: dict) -> List[str]:
+    """Determines which images sanity checking the given data looks at. Even
+    if the data was rejected it might be accepted once one of them changes.
+    """
+    if not isinstance(data, dict):
+        return []
+
+    result: Set[str] = set()
+    for img_target_settings in data.values():
+        if not isinstance(img_target_settings, dict):
+            continue
+        path = img_target_settings.get("path")
+        if not isinstance(path, str) or not path.startswith("/"):
+            continue
+        path_rel_to_root = os.path.normpath(os.path.join("src", "public", path[1:]))
+        if path_rel_to_root.startswith(
+            os.path.join("src", "public", "")
+        ) and os.path.isfile(os.path.join(context.folder, path_rel_to_root)):
+            result.add(path_rel_to_root)
+    return list(result)
+
+
 def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) -> bool:
     """Checks that the given data is a valid images json file."""
     ctx = lambda: f"{relpath=}"
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index df15096..2cf381c 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -128,9 +128,18 @@ class ImagesManipulator(HTMLManipulator):
         if cmd is None:
             return None
 
-        if not validate_command(
-            cmd, self.context, os.path.join(self.context.folder, self.relpath)
-        ):
+        command_file_path = os.path.join(self.context.folder, self.relpath)
+        if not validate_command(cmd, self.context, command_file_path):
+            # the command may become valid once the image changes
+            source_path = cmd.source_path_relative_to_root(
+                self.context, command_file_path
+            )
+            if source_path.startswith(
+                os.path.join("src", "public", "")
+            ) and os.path.isfile(os.path.join(self.context.folder, source_path)):
+                (self.dependencies if self.mode == "scan" else self.children).add(
+                    source_path
+                )
             return None
 
         return cmd
-- 
2.43.0


From 5ba7838a7969599a681874d97d76a24d50e8ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 47/52] fix: icon settings were lost after values of several
 tokens, without a last semicolon or a default button, and some named colors
 were wrong

---
 .../build/css/manips/icons/settings.py        | 91 ++++++++++++-------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..260bb1b 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -55,17 +55,21 @@ class IconSettings:
     """
 
 
+DEFAULT_BUTTON = ButtonSetting(
+    active_color="primary",
+    hover_color="primary-dark",
+    disabled_color="disabled",
+)
+"""The default button unless the configuration specifies something else"""
+
+
 def load_icon_settings(context: BuildContext) -> IconSettings:
     """Loads the icon settings from the given build context."""
     with open(context.config_file, "r") as f:
         config: dict = json.load(f)
 
     button_settings: ButtonSettings = ButtonSettings(
-        default_button=ButtonSetting(
-            active_color="primary",
-            hover_color="primary-dark",
-            disabled_color="disabled",
-        ),
+        default_button=DEFAULT_BUTTON,
         button_by_identifier=dict(),
     )
     icons: Optional[dict] = config.get("icons")
@@ -108,15 +112,16 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 button_settings, button_by_identifier=dict()
             )
         else:
+            fallback = button_settings.default_button or DEFAULT_BUTTON
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", fallback.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", fallback.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", fallback.disabled_color
                 )
                 if (
                     active_color is not None
@@ -178,30 +183,32 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 # token is the left curly bracket for the :root qualified rule
                 token = next_significant()
                 while token["type"] != CSSTokenType.right_curly_bracket:
-                    if token["type"] != CSSTokenType.ident:
-                        # parse error
-                        break
-
-                    component_name = token["value"]
-
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.colon:
-                        # parse error
-                        break
-
-                    component_value: List[CSSToken] = [next_significant()]
-                    if component_value[0]["type"] == CSSTokenType.function:
+                    # each declaration lasts until the next semicolon which
+                    # is not within some kind of bracket
+                    declaration: List[CSSToken] = []
+                    nest_level = 0
+                    while nest_level > 0 or token["type"] not in (
+                        CSSTokenType.semicolon,
+                        CSSTokenType.right_curly_bracket,
+                    ):
+                        if token["type"] in OPENING_TOKENS:
+                            nest_level += 1
+                        elif token["type"] in CLOSING_TOKENS and nest_level > 0:
+                            nest_level -= 1
+                        declaration.append(token)
+                        token = next_significant()
+                    if token["type"] == CSSTokenType.semicolon:
                         token = next_significant()
-                        while token["type"] != CSSTokenType.right_parens:
-                            component_value.append(token)
-                            token = next_significant()
-                        component_value.append(token)
 
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.semicolon:
-                        # parse error
-                        break
-                    token = next_significant()
+                    if (
+                        len(declaration) < 2
+                        or declaration[0]["type"] != CSSTokenType.ident
+                        or declaration[1]["type"] != CSSTokenType.colon
+                    ):
+                        continue
+
+                    component_name = declaration[0]["value"]
+                    component_value = declaration[2:]
 
                     if component_name.startswith("--col-"):
                         color = interpret_as_color(component_value)
@@ -220,6 +227,18 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
     )
 
 
+OPENING_TOKENS = (
+    CSSTokenType.function,
+    CSSTokenType.left_parens,
+    CSSTokenType.left_square_bracket,
+    CSSTokenType.left_curly_bracket,
+)
+CLOSING_TOKENS = (
+    CSSTokenType.right_parens,
+    CSSTokenType.right_square_bracket,
+    CSSTokenType.right_curly_bracket,
+)
+
 NAMED_CSS_COLORS = {
     "aliceblue": Color(red=240, green=248, blue=255),
     "antiquewhite": Color(red=250, green=235, blue=215),
@@ -247,6 +266,7 @@ NAMED_CSS_COLORS = {
     "darkgoldenrod": Color(red=184, green=134, blue=11),
     "darkgray": Color(red=169, green=169, blue=169),
     "darkgreen": Color(red=0, green=100, blue=0),
+    "darkgrey": Color(red=169, green=169, blue=169),
     "darkkhaki": Color(red=189, green=183, blue=107),
     "darkmagenta": Color(red=139, green=0, blue=139),
     "darkolivegreen": Color(red=85, green=107, blue=47),
@@ -257,11 +277,13 @@ NAMED_CSS_COLORS = {
     "darkseagreen": Color(red=143, green=188, blue=143),
     "darkslateblue": Color(red=72, green=61, blue=139),
     "darkslategray": Color(red=47, green=79, blue=79),
+    "darkslategrey": Color(red=47, green=79, blue=79),
     "darkturquoise": Color(red=0, green=206, blue=209),
     "darkviolet": Color(red=148, green=0, blue=211),
     "deeppink": Color(red=255, green=20, blue=147),
     "deepskyblue": Color(red=0, green=191, blue=255),
     "dimgray": Color(red=105, green=105, blue=105),
+    "dimgrey": Color(red=105, green=105, blue=105),
     "dodgerblue": Color(red=30, green=144, blue=255),
     "firebrick": Color(red=178, green=34, blue=34),
     "floralwhite": Color(red=255, green=250, blue=240),
@@ -271,9 +293,10 @@ NAMED_CSS_COLORS = {
     "ghostwhite": Color(red=248, green=248, blue=255),
     "gold": Color(red=255, green=215, blue=0),
     "goldenrod": Color(red=218, green=165, blue=32),
-    "gray": Color(red=127, green=127, blue=127),
+    "gray": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
     "greenyellow": Color(red=173, green=255, blue=47),
+    "grey": Color(red=128, green=128, blue=128),
     "honeydew": Color(red=240, green=255, blue=240),
     "hotpink": Color(red=255, green=105, blue=180),
     "indianred": Color(red=205, green=92, blue=92),
@@ -289,12 +312,14 @@ NAMED_CSS_COLORS = {
     "lightcyan": Color(red=224, green=255, blue=255),
     "lightgoldenrodyellow": Color(red=250, green=250, blue=210),
     "lightgreen": Color(red=144, green=238, blue=144),
+    "lightgray": Color(red=211, green=211, blue=211),
     "lightgrey": Color(red=211, green=211, blue=211),
     "lightpink": Color(red=255, green=182, blue=193),
     "lightsalmon": Color(red=255, green=160, blue=122),
     "lightseagreen": Color(red=32, green=178, blue=170),
     "lightskyblue": Color(red=135, green=206, blue=250),
     "lightslategray": Color(red=119, green=136, blue=153),
+    "lightslategrey": Color(red=119, green=136, blue=153),
     "lightsteelblue": Color(red=176, green=196, blue=222),
     "lightyellow": Color(red=255, green=255, blue=224),
     "lime": Color(red=0, green=255, blue=0),
@@ -335,12 +360,13 @@ NAMED_CSS_COLORS = {
     "plum": Color(red=221, green=160, blue=221),
     "powderblue": Color(red=176, green=224, blue=230),
     "purple": Color(red=128, green=0, blue=128),
+    "rebeccapurple": Color(red=102, green=51, blue=153),
     "red": Color(red=255, green=0, blue=0),
     "rosybrown": Color(red=188, green=143, blue=143),
     "royalblue": Color(red=65, green=105, blue=225),
     "saddlebrown": Color(red=139, green=69, blue=19),
     "salmon": Color(red=250, green=128, blue=114),
-    "sandybrown": Color(red=250, green=128, blue=114),
+    "sandybrown": Color(red=244, green=164, blue=96),
     "seagreen": Color(red=46, green=139, blue=87),
     "seashell": Color(red=255, green=245, blue=238),
     "sienna": Color(red=160, green=82, blue=45),
@@ -348,6 +374,7 @@ NAMED_CSS_COLORS = {
     "skyblue": Color(red=135, green=206, blue=235),
     "slateblue": Color(red=106, green=90, blue=205),
     "slategray": Color(red=112, green=128, blue=144),
+    "slategrey": Color(red=112, green=128, blue=144),
     "snow": Color(red=255, green=250, blue=250),
     "springgreen": Color(red=0, green=255, blue=127),
     "steelblue": Color(red=70, green=130, blue=180),
-- 
2.43.0


From a68fb777e71c0e5fdda1131988a32f71e14a2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 48/52] fix: icons were not rebuilt when their picture changed,
 lacked the colors of their buttons, and failed for buttons with unknown
 colors

---
 .../build/css/manips/icons/command.py         | 17 +++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py | 28 +++++++++++++------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/command.py b/vanillaplusjs/build/css/manips/icons/command.py
index afae37a..9036ae6 100644
--- a/vanillaplusjs/build/css/manips/icons/command.py
+++ b/vanillaplusjs/build/css/manips/icons/command.py
@@ -41,6 +41,23 @@ class IconCommand:
         """The location of the output icon folder relative to the project root"""
         return os.path.join("out", "www", "img", "icons", self.icon_name)
 
+    @property
+    def referenced_colors(self) -> List[str]:
+        """The colors which need a file: the output colors and those only
+        referenced by a button.
+        """
+        colors = dict((color, None) for color in self.output_colors)
+        if self.button is not None:
+            for setting in (
+                self.button.default_button,
+                *self.button.button_by_identifier.values(),
+            ):
+                if setting is not None:
+                    colors[setting.active_color] = None
+                    colors[setting.hover_color] = None
+                    colors[setting.disabled_color] = None
+        return list(colors)
+
     def web_path_to(self, color: str) -> str:
         """Returns the path part of the URL for this icon in the given color"""
         return f"/img/icons/{self.icon_name}/{color}.svg"
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 31d120f..ba408ae 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -75,14 +75,18 @@ class IconManipulator(CSSManipulator):
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
 
+        self.children.add(args.input_icon)
+
         svg = None
         replacer = None
 
-        for color in args.output_colors:
+        for color in args.referenced_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
-                self.reused.add(output_relpath)
+                if output_relpath not in self.produced:
+                    self.reused.add(output_relpath)
+                self.hash_icon(output_relpath)
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
@@ -104,11 +108,8 @@ class IconManipulator(CSSManipulator):
             with open(output_path, "w", newline="\n") as f:
                 f.write(new_svg)
 
-            hash_result = hash_handler.build_file(self.context, output_relpath)
             self.produced.add(output_relpath)
-            self.children.update(hash_result.children)
-            self.produced.update(hash_result.produced)
-            self.reused.update(hash_result.reused)
+            self.hash_icon(output_relpath)
 
         resulting_tokens = []
         for size in args.output_sizes:
@@ -476,6 +477,15 @@ class IconManipulator(CSSManipulator):
 
         return resulting_tokens
 
+    def hash_icon(self, output_relpath: str) -> None:
+        """Ensures the produced icon at the given path has its hash stored"""
+        hash_result = hash_handler.build_file(self.context, output_relpath)
+        self.children.update(hash_result.children)
+        self.produced.update(hash_result.produced)
+        self.reused.update(
+            path for path in hash_result.reused if path not in self.produced
+        )
+
     def get_icon_command_args(self, node: CSSToken) -> Optional[IconCommand]:
         if node["type"] != CSSTokenType.comment:
             return None
@@ -508,7 +518,7 @@ class IconManipulator(CSSManipulator):
                 )
             )
             if args.output_colors is not None
-            else self.context.icon_settings.color_map.keys()
+            else list(self.context.icon_settings.color_map.keys())
         )
         real_sizes = (
             list(
@@ -556,7 +566,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
@@ -575,7 +585,7 @@ class IconManipulator(CSSManipulator):
 
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in args.referenced_colors:
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From 73b9db947a9aa23ae08300cc3551660add3534a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 49/52] fix: escaped text that looks like a comment became a
 comment

---
 vanillaplusjs/build/html/tokenizer.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 654d110..fbe2e32 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -3,6 +3,11 @@ from typing import Generator
 from .token import HTMLToken
 import html5lib
 
+RAW_TEXT_ELEMENTS = frozenset(
+    ("title", "textarea", "style", "xmp", "iframe", "noembed", "noframes")
+)
+"""The elements html5lib uses parseRCDataRawtext for"""
+
 
 def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, None]:
     """Tokenizes the given file using html5lib. This will correct certain
@@ -32,6 +37,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
     walker = html5lib.getTreeWalker("dom")
 
     tokens = iter(walker(doc))
+    in_raw_text = False
     while True:
         try:
             token = next(tokens)
@@ -45,7 +51,17 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
 
         # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
 
-        if token["type"] == "Characters" and token["data"] == "<":
+        # anywhere else a comment is already a comment, so this would be text,
+        # e.g., <p>&lt;!-- NOT A COMMENT --></p>
+
+        if token["type"] in ("StartTag", "EndTag"):
+            in_raw_text = (
+                token["type"] == "StartTag"
+                and not token["namespace"]
+                and token["name"] in RAW_TEXT_ELEMENTS
+            )
+
+        if in_raw_text and token["type"] == "Characters" and token["data"] == "<":
             try:
                 next_token = next(tokens)
             except StopIteration:
@@ -57,7 +73,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
             ):
                 data: str = next_token["data"]
                 try:
-                    close_comment_idx = data.index("-->")
+                    close_comment_idx = data.index("-->", 3)
                 except ValueError:
                     yield token
                     yield next_token
@@ -75,6 +91,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
                     )
                 continue
 
+            in_raw_text = next_token["type"] != "EndTag"
             yield token
             yield next_token
             continue
-- 
2.43.0


From 7168a150ad93892c1758645764b39c69e09ab154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 50/52] fix: attributes such as xlink:href lost their prefix

---
 vanillaplusjs/build/html/tokenizer.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index fbe2e32..a7e953f 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,5 +1,5 @@
 import io
-from typing import Generator
+from typing import Generator, Optional
 from .token import HTMLToken
 import html5lib
 
@@ -8,6 +8,22 @@ RAW_TEXT_ELEMENTS = frozenset(
 )
 """The elements html5lib uses parseRCDataRawtext for"""
 
+ATTRIBUTE_PREFIXES = dict(
+    (html5lib.constants.namespaces[prefix], prefix)
+    for prefix in ("xlink", "xml", "xmlns")
+)
+"""The prefixes of attributes of foreign elements, by their namespace"""
+
+
+def _qualified_name(namespace: Optional[str], name: str) -> str:
+    """The name an attribute has to be serialized with, since html5lib will
+    ignore the namespace, e.g., xlink:href for href in the xlink namespace
+    """
+    prefix = ATTRIBUTE_PREFIXES.get(namespace)
+    if prefix is None or prefix == name:
+        return name
+    return f"{prefix}:{name}"
+
 
 def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, None]:
     """Tokenizes the given file using html5lib. This will correct certain
@@ -54,6 +70,12 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
         # anywhere else a comment is already a comment, so this would be text,
         # e.g., <p>&lt;!-- NOT A COMMENT --></p>
 
+        if token["type"] in ("StartTag", "EmptyTag"):
+            token["data"] = dict(
+                ((None, _qualified_name(namespace, name)), value)
+                for (namespace, name), value in token["data"].items()
+            )
+
         if token["type"] in ("StartTag", "EndTag"):
             in_raw_text = (
                 token["type"] == "StartTag"
-- 
2.43.0


From 52aec91917f2658cd55e4dbeb33435fc18fa1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 51/52] fix: text in noscript was not escaped and pre lost a
 leading newline

---
 .../build/html/manipulate_and_serialize.py    | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index d385ecc..c7ebddd 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -1,13 +1,50 @@
-from typing import List, Optional
+from typing import Iterable, Iterator, List, Optional
 
 from vanillaplusjs.build.ioutil import makedirs_safely
 from .manipulator import HTMLManipulator
 from .builder import HTMLBuilder
+from .token import HTMLToken, space_characters
 from .tokenizer import tokenize
 import html5lib
 import os
 
 
+VERBATIM_ELEMENTS = frozenset(
+    ("style", "script", "xmp", "iframe", "noembed", "noframes")
+)
+"""The elements whose text must not be escaped"""
+
+LEADING_NEWLINE_ELEMENTS = frozenset(("pre", "textarea", "listing"))
+"""The elements for which a newline right after the start tag is ignored"""
+
+
+def _prepare_text(tokens: Iterable[HTMLToken]) -> Iterator[HTMLToken]:
+    """Prepares the given tokens for a serializer which escapes the text in all
+    elements, which is necessary as otherwise html5lib also does not escape the
+    text within e.g. noscript elements.
+    """
+    verbatim = False
+    previous_newline_element = False
+
+    for token in tokens:
+        newline_element = False
+        if token["type"] in ("StartTag", "EndTag"):
+            html_start_tag = token["type"] == "StartTag" and not token.get("namespace")
+            verbatim = html_start_tag and token["name"] in VERBATIM_ELEMENTS
+            newline_element = (
+                html_start_tag and token["name"] in LEADING_NEWLINE_ELEMENTS
+            )
+        elif token["type"] in ("Characters", "SpaceCharacters"):
+            if previous_newline_element and token["data"].startswith("\n"):
+                yield space_characters("\n")
+            if verbatim:
+                # these are never escaped
+                token = space_characters(token["data"])
+
+        previous_newline_element = newline_element
+        yield token
+
+
 def manipulate_and_serialize(
     infile: str, outfile: Optional[str], manipulators: List[HTMLManipulator]
 ) -> None:
@@ -33,10 +70,12 @@ def manipulate_and_serialize(
 
     output_tokens = builder.consume_tokens()
     serializer = html5lib.serializer.HTMLSerializer(
-        omit_optional_tags=False, quote_attr_values="always"
+        omit_optional_tags=False, quote_attr_values="always", escape_rcdata=True
     )
 
     with open(outfile, "wb") as f:
-        for block in serializer.serialize(output_tokens, encoding="utf-8"):
+        for block in serializer.serialize(
+            _prepare_text(output_tokens), encoding="utf-8"
+        ):
             f.write(block)
         f.write(bytes(os.linesep, encoding="utf-8"))
-- 
2.43.0


From 4720617ee24ec801e537148d564656bf1ff1820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:15 +0000
Subject: [PATCH 52/52] fix: builds after a change of the configuration kept
 outdated outputs

---
 vanillaplusjs/build/build_context.py |  7 ++++++
 vanillaplusjs/runners/build.py       | 36 ++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index 8612a70..7a40b75 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -219,6 +219,13 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "rebuild_in_progress.txt")
 
+    @property
+    def configuration_digest_file(self) -> str:
+        """Returns the path to the file with a digest of the configuration that
+        was used for everything in the out folder
+        """
+        return os.path.join(self.out_folder, "configuration_digest.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..5c93614 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -1,5 +1,7 @@
 from typing import List, Optional, Sequence
 import argparse
+import dataclasses
+import hashlib
 from loguru import logger
 import os
 import sys
@@ -167,6 +169,19 @@ def build(
             old_placeholders_graph = FileDependencyGraph.load(f)
         logger.debug("Loaded old placeholders graph")
 
+    configuration_digest = digest_configuration(context, config)
+    configuration_changed = os.path.exists(context.dependency_graph_file)
+    if os.path.exists(context.configuration_digest_file):
+        with open(context.configuration_digest_file) as f:
+            configuration_changed = f.read() != configuration_digest
+
+    if configuration_changed:
+        logger.info("The configuration changed, rebuilding everything")
+        with open(context.rebuild_marker_file, "w") as f:
+            f.write("rebuild in progress")
+        if os.path.exists(context.configuration_digest_file):
+            os.unlink(context.configuration_digest_file)
+
     loop = asyncio.new_event_loop()
     try:
         asyncio.set_event_loop(loop)
@@ -187,6 +202,27 @@ def build(
         asyncio.set_event_loop(None)
         loop.close()
 
+    os.makedirs(context.out_folder, exist_ok=True)
+    with open(context.configuration_digest_file, "w") as f:
+        f.write(configuration_digest)
+
+
+def digest_configuration(context: BuildContext, config: dict) -> str:
+    """Determines a digest of everything besides the source files which the
+    outputs depend on: the configuration, with the environment variables the
+    constants refer to, and the version of the processor.
+    """
+    return hashlib.sha256(
+        json.dumps(
+            [
+                vanillaplusjs.constants.PROCESSOR_VERSION,
+                config,
+                dataclasses.asdict(context.js_constants),
+            ],
+            sort_keys=True,
+        ).encode("ascii")
+    ).hexdigest()
+
 
 def detect_symlink_support() -> bool:
     try:
-- 
2.43.0

