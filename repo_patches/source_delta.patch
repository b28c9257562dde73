From 4fd464c362e61c9901b748f3c991af5e20d58d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 01/47] fix: force writing chunks while distrusted revisions
 exist

contains_distrusted compared the revision instead of its trust state and was
always false, so new backups kept reusing possibly corrupt chunks.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From 0f7aed9409e883f5cb7b0e91f4ae4e629000301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 02/47] fix: allow date ranges starting exactly at the oldest
 revision

The index 0.0 was mistaken for "not a date". Also drop a debug print that
polluted the output of every command using a date range.
---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..eeafbd1 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -454,9 +454,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is not None:
+                return index
+            return self.history.index(self.find(spec))
         else:
             return self.history.index(spec)
 
@@ -478,7 +479,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From be8d8ee1382d4ea74d237bb7e98ffd926ae067a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 03/47] fix: reports-delete removes the report instead of
 failing

with_suffix() needs the leading dot.
---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From 18780e209205ab5958120748765e32596169ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 04/47] fix: do not fail a backup because of a garbage snapshot
 request

---
 src/backy/rbd/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..3323759 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -470,6 +470,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From f487006b4cbcaba67b76d7e9651712df2bb9f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 05/47] fix: report failures of gc and verify in the exit
 status

The exit status of the gc helper was ignored, and a verify helper killed by a
signal (negative return code) counted as success.
---
 src/backy/cli/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..5f5c833 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -99,7 +99,7 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    ret = max(ret, r, key=abs)
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -280,7 +280,7 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            ret = max(ret, self.source.verify(r), key=abs)
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
@@ -311,7 +311,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -320,7 +320,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0


From a6c21a9c8d64a28332bf84603a2010837e336d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 06/47] fix: gc of file based sources removed all revisions

It deleted every *.rev file because it compared them with the names of the
data files. Remove the data of vanished revisions instead.
---
 src/backy/file/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..99e9ec9 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -6,6 +6,7 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, Iterable
 
+import shortuuid
 from structlog.stdlib import BoundLogger
 
 from backy.revision import Revision
@@ -72,13 +73,20 @@ class FileSource(Source[FileRestoreArgs]):
         shutil.copy(self._path_for_revision(revision), args.target)
 
     def gc(self):
-        files = set(self.repository.path.glob("*.rev"))
+        self.repository.scan()
+        alphabet = set(shortuuid.get_alphabet())
+        # Only consider data files of revisions, which are named by their uuid.
+        files = set(
+            f
+            for f in self.repository.path.iterdir()
+            if f.is_file() and len(f.name) == 22 and alphabet.issuperset(f.name)
+        )
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            self._path_for_revision(r) for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
+        self.repository.clear_purge_pending()
 
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
-- 
2.43.0


From dfacf7dc00e7f252772b83462eb5d662be1c4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 07/47] fix: take the repository locks in the file source

Backup, restore and gc of file based sources did not exclude each other.
---
 src/backy/file/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 99e9ec9..1483715 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,10 +1,11 @@
+import os
 import shutil
 import sys
 import time
 from argparse import _ActionsContainer
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Any, Iterable
+from typing import Any, Iterable, Literal
 
 import shortuuid
 from structlog.stdlib import BoundLogger
@@ -15,6 +16,10 @@ from backy.source import RestoreArgs, Source
 from ..repository import Repository
 
 
+def locked(target: str, mode: Literal["shared", "exclusive"]):
+    return Repository.locked(target, mode, repo_attr="repository")
+
+
 @dataclass(frozen=True)
 class FileRestoreArgs(RestoreArgs):
     target: Path
@@ -59,6 +64,8 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision):
         backup = self._path_for_revision(revision)
         assert not backup.exists()
@@ -69,9 +76,11 @@ class FileSource(Source[FileRestoreArgs]):
         revision.readonly()
         return True
 
+    @locked(target=".purge", mode="shared")
     def restore(self, revision: Revision, args: FileRestoreArgs):
         shutil.copy(self._path_for_revision(revision), args.target)
 
+    @locked(target=".purge", mode="exclusive")
     def gc(self):
         self.repository.scan()
         alphabet = set(shortuuid.get_alphabet())
-- 
2.43.0


From 31893d2adb3274dbb9b58f1eed0682d868f44d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 08/47] fix: sync file backups before marking them as complete

---
 src/backy/file/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 1483715..1329c1e 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -71,6 +71,9 @@ class FileSource(Source[FileRestoreArgs]):
         assert not backup.exists()
         start = time.time()
         shutil.copy(self.filename, backup)
+        # The data must be durable before the revision is marked as complete.
+        with backup.open("rb") as f:
+            os.fsync(f)
         revision.stats["duration"] = time.time() - start
         revision.write_info()
         revision.readonly()
-- 
2.43.0


From cc5bf76b1632e373a79a6282aa9f0d6db06d96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 09/47] fix: sync chunks before marking a revision as complete

After a power loss a revision could be marked as complete while its chunks
never made it to the disk.
---
 src/backy/rbd/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 3323759..19a65fa 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -158,6 +158,10 @@ class RBDSource(Source[RBDRestoreArgs]):
             self.repository.distrust(
                 self.repository.find_revisions("local"), skip_lock=True
             )
+        # Switched from a fine-grained syncing mechanism to "everything
+        # once" when we're done. This is as safe but much faster. The data must
+        # be durable before the revision is marked as complete.
+        os.sync()
         if not verified:
             self.log.error(
                 "verification-failed",
@@ -169,9 +173,6 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-        # Switched from a fine-grained syncing mechanism to "everything
-        # once" when we're done. This is as safe but much faster.
-        os.sync()
 
         # If there are distrusted revisions, then perform at least one
         # verification after a backup - for good measure and to keep things
-- 
2.43.0


From 80aa91df83b4c7738f28928bb6bf048fdf21d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 10/47] fix: do not clean up revisions that were completed in
 the meantime

The decision was based on a history read before taking the lock. This also
cleans up the failed revision after an unsuccessful `backy backup`.
---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index eeafbd1..5ea1408 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -295,6 +295,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # Our view may predate the lock: the revision could have been completed.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 4cc916451769be4ae6bae0b91248db046fcb9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/47] fix: do not purge chunks of revisions completed in the
 meantime

The set of used chunks was based on a history read before taking the lock.
---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 19a65fa..a0c3327 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -257,6 +257,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     def gc(self) -> None:
         self.log.debug("purge")
         used_chunks: Set[Hash] = set()
+        # Our view may predate the lock: consider all current revisions.
+        self.repository.scan()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
         for revision in self.repository.local_history:
-- 
2.43.0


From 7b2153a37d18931967b0de21bfd0fd369d49257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 12/47] fix: tolerate revisions being removed while scanning
 the repository

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 5ea1408..4815d53 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -214,7 +214,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Removed by someone else in the meantime.
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From 2a553bdbdef12e5d88f7458c18e422ebb5fc9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 13/47] fix: do not run verify concurrently with backups

Verify removes revisions, writes metadata and purges chunks. Doing this with a
shared lock and a history read before taking the lock could purge the chunks of
a backup running at the same time and overwrite concurrent metadata updates.
---
 src/backy/rbd/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index a0c3327..4f2f963 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -185,13 +185,21 @@ class RBDSource(Source[RBDRestoreArgs]):
         ):
             if revision.trust == Trust.DISTRUSTED:
                 self.log.warning("inconsistent")
-                self.verify(revision, skip_lock=True)
+                self._verify(revision)
                 break
         return verified
 
-    @locked(target=".purge", mode="shared")
-    @report_status
+    # Verifying changes metadata, removes revisions and purges chunks. This
+    # must not happen while a backup or restore is running.
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="exclusive")
     def verify(self, revision: Revision):
+        # Our view may predate the lock.
+        self.repository.scan()
+        return self._verify(self.repository.find_by_uuid(revision.uuid))
+
+    @report_status
+    def _verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
         log.info("verify-start")
         verified_chunks: Set[Hash] = set()
-- 
2.43.0


From 4d8d8ffe17f0b79eb3f39843b48133ca2e6cc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 14/47] fix: hold the repository lock while synchronising
 metadata

The lock was released as soon as the coroutine was created, so metadata was
pushed and pulled without any mutual exclusion.
---
 src/backy/repository.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 4815d53..06f02ae 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -151,9 +152,17 @@ class Repository(object):
                     repo = getattr(self, repo_attr)
                 else:
                     repo = self
+                if inspect.iscoroutinefunction(f):
+                    return locked_coroutine(repo, self, *args, **kw)
                 with repo.lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            async def locked_coroutine(repo, self, *args, **kw):
+                # Hold the lock while the coroutine is running, not only while
+                # it is being created.
+                with repo.lock(target, mode, f.__name__):
+                    return await f(self, *args, **kw)
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From 6e68152ffd7300bae75c8573e71e61828ecb1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 15/47] fix: update metadata based on its current state

rm, distrust, push and pull wrote back revisions that were read before taking
the lock. This could resurrect removed revisions and revert updates made in the
meantime.
---
 src/backy/daemon/scheduler.py |  4 ++++
 src/backy/repository.py       | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..69d3fb1 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -359,6 +359,8 @@ class Job(object):
     @locked(target=".backup", mode="exclusive")
     async def push_metadata(self) -> int:
         grouped = defaultdict(list)
+        # Our view may predate the lock.
+        self.repository.scan()
         for r in self.repository.clean_history:
             if r.pending_changes:
                 grouped[r.server].append(r)
@@ -440,6 +442,8 @@ class Job(object):
             return False
 
         self.log.info("pull-start")
+        # Our view may predate the lock.
+        self.repository.scan()
         async with ClientManager(
             self.daemon.peers, self.taskid, self.log
         ) as apis:
diff --git a/src/backy/repository.py b/src/backy/repository.py
index 06f02ae..b299dcd 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -302,6 +302,13 @@ class Repository(object):
             )
             raise RuntimeError("Remote revs disallowed")
 
+    def _reload(self, revs: Iterable[Revision]) -> List[Revision]:
+        """Return the current state of revisions that were looked up before
+        taking the lock. Skips those that have been removed since."""
+        uuids = [r.uuid for r in revs]
+        self.scan()
+        return [self._by_uuid[uuid] for uuid in uuids if uuid in self._by_uuid]
+
     #################
     # Making backups
 
@@ -319,7 +326,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def rm(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._reload(revs):
             r.remove()
 
     @locked(target=".backup", mode="exclusive")
@@ -362,7 +369,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._reload(revs):
             assert not r.server
             r.distrust()
             r.write_info()
-- 
2.43.0


From 040acc113a3a4c5fe28a513a4e3c64edb6579fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 16/47] fix: do not expire usable backups in favour of
 incomplete ones

---
 src/backy/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backy/schedule.py b/src/backy/schedule.py
index e140ab9..746d4e5 100644
--- a/src/backy/schedule.py
+++ b/src/backy/schedule.py
@@ -134,10 +134,14 @@ class Schedule(object):
             keep = args["keep"]
             if len(revisions) < keep:
                 continue
+            # Incomplete revisions do not replace usable copies.
+            keep_clean = [r for r in revisions if "duration" in r.stats][-keep:]
             keep_threshold = backy.utils.now() - keep * args["interval"]
             for old_revision in revisions[:-keep]:
                 if old_revision.timestamp >= keep_threshold:
                     continue
+                if old_revision in keep_clean:
+                    continue
                 old_revision.tags.remove(tag)
                 old_revision.write_info()
 
-- 
2.43.0


From 68c77c2604f77bfbd15846a4b7cc518887e0516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 17/47] fix: process pending purges of repositories without a
 job

The job had no source and failed with an AttributeError, which also prevented
all further repositories from being purged.
---
 src/backy/daemon/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..83bd840 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,6 +21,7 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
+from backy.source import AsyncCmdLineSource
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
 from .api import BackyAPI
@@ -322,7 +323,15 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        # The job isn't part of our config any longer.
+                        job.source = AsyncCmdLineSource.load(job.path, job.log)
+                        await job.run_gc()
+                    except Exception:
+                        self.log.exception(
+                            "purging-pending-failed", job=candidate.name
+                        )
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From 9909696e98c4e24169905bec36a7cdb16a7e0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 18/47] fix: fail the backup if exporting the image failed

The exit status of rbd was ignored, so an export that broke off half way was
accepted as a complete image.
---
 src/backy/rbd/rbd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..281718c 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -126,6 +126,12 @@ class RBDClient(object):
     def snap_rm(self, image):
         return self._rbd(["snap", "rm", image])
 
+    @staticmethod
+    def _check_export(return_code, cmd) -> None:
+        # The output may look complete even if rbd failed half way.
+        if isinstance(return_code, int) and return_code != 0:
+            raise subprocess.CalledProcessError(return_code, cmd)
+
     @contextlib.contextmanager
     def export_diff(self, new: str, old: str) -> Iterator["RBDDiffV1"]:
         self.log.info("export-diff")
@@ -148,7 +154,8 @@ class RBDClient(object):
             yield RBDDiffV1(proc.stdout)
         finally:
             proc.stdout.close()
-            proc.wait()
+            return_code = proc.wait()
+        self._check_export(return_code, proc.args)
 
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
@@ -176,7 +183,8 @@ class RBDClient(object):
             yield proc.stdout
         finally:
             proc.stdout.close()
-            proc.wait()
+            return_code = proc.wait()
+        self._check_export(return_code, proc.args)
 
 
 def unpack_from(fmt, f):
-- 
2.43.0


From 8a431f55eeb987e36df26166d348213e6bab45ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 19/47] fix: treat peers that time out like unreachable ones

aiohttp raises asyncio.TimeoutError, which isn't a ClientError, if a request
takes too long. This failed the whole job after a successful backup.
---
 src/backy/daemon/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 69d3fb1..254c53d 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -165,7 +165,7 @@ class Job(object):
                     return False
                 try:
                     res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
-                except ClientError:
+                except (ClientError, asyncio.TimeoutError):
                     log.warning("leader-failed", exc_style="short")
                     return False
         except asyncio.CancelledError:
@@ -405,7 +405,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -420,7 +420,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -471,7 +471,7 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
-- 
2.43.0


From f86d5a747b1d7d3b6892b1619f08ed752027cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 20/47] fix: detect the leader even if some peer does not know
 the job

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 254c53d..f795e63 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -127,6 +127,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.info("job-unknown")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
-- 
2.43.0


From 4064d40a557ab00c341da2cb4806b8a02751fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 21/47] fix: report the current problem reports in the status
 list

---
 src/backy/daemon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 83bd840..0769b67 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -349,6 +349,7 @@ class BackyDaemon(object):
             if filter_re and not filter_re.search(job.name):
                 continue
             job.repository.scan()
+            job.repository.scan_reports()
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From b7880185b124b375ff37169dde464f686002b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 22/47] fix: cope with any garbage in the snapshot requests

---
 src/backy/rbd/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 4f2f963..f769edb 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -474,7 +474,8 @@ class CephRBD:
                     continue
                 try:
                     s = json.loads(s)
-                except json.decoder.JSONDecodeError:
+                    request_vm, request_snapshot = s["vm"], str(s["snapshot"])
+                except (ValueError, TypeError, LookupError):
                     # Clean up garbage.
                     self.log.warning(
                         "create-snapshot-removing-garbage-request",
@@ -482,15 +483,15 @@ class CephRBD:
                     )
                     del consul.kv[key]
                     continue
-                if s["vm"] != self.vm:
+                if request_vm != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
                 # encapsulated here.
-                if s["snapshot"].startswith("backy-"):
+                if request_snapshot.startswith("backy-"):
                     self.log.info(
                         "create-snapshot-removing-request",
-                        vm=s["vm"],
-                        snapshot_name=s["snapshot"],
+                        vm=request_vm,
+                        snapshot_name=request_snapshot,
                         snapshot_key=key,
                     )
                     del consul.kv[key]
-- 
2.43.0


From d5c5576ea3a8ec1c1af0b2a18434ece9357d2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 23/47] fix: accept a requested snapshot that appears right at
 the timeout

---
 src/backy/rbd/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index f769edb..1565cf0 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -458,7 +458,12 @@ class CephRBD:
         except TimeOutError:
             # The VM might have been shut down. Try doing a regular Ceph
             # snapshot locally.
-            self.rbd.snap_create(self._image_name + "@" + name)
+            try:
+                self.rbd.snap_create(self._image_name + "@" + name)
+            except subprocess.CalledProcessError:
+                # The request may have been served at the last moment.
+                if not self.rbd.exists(self._image_name + "@" + name):
+                    raise
         except KeyboardInterrupt:
             raise
         finally:
-- 
2.43.0


From 874878414c44a7b00f45b3f87a74c211d5b0fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 24/47] fix: sync chunks before replacing existing ones

---
 src/backy/rbd/chunked/chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/rbd/chunked/chunk.py b/src/backy/rbd/chunked/chunk.py
index 04b9aa8..917534f 100644
--- a/src/backy/rbd/chunked/chunk.py
+++ b/src/backy/rbd/chunked/chunk.py
@@ -128,6 +128,11 @@ class Chunk(object):
                 with os.fdopen(fd, mode="wb") as f:
                     data = lzo.compress(self.data.getvalue())
                     f.write(data)
+                    if target.exists():
+                        # Do not replace data that other revisions rely on
+                        # with data that may still get lost.
+                        f.flush()
+                        os.fsync(f)
                 # Micro-optimization: chmod before rename to help against
                 # metadata flushes and then changing metadata again.
                 os.chmod(tmpfile_name, 0o440)
-- 
2.43.0


From ce56c5e38d83ff847140400820d236e364c3c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 25/47] fix: finish the chunk layout migration despite stray
 files

A temporary file left behind by an interrupted backup in the old layout made
the removal of its directory fail, so the repository could not be opened.
---
 src/backy/rbd/chunked/store.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index 18d310b..de360a4 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -46,7 +46,13 @@ class Store(object):
             path.rename(new)
         for path in self.path.glob("*/??"):
             if path.is_dir():
-                path.rmdir()
+                try:
+                    path.rmdir()
+                except OSError as e:
+                    # e.g. temporary files of an interrupted backup
+                    self.log.warning(
+                        "to-v2-directory-kept", path=str(path), exc=str(e)
+                    )
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
         self.log.info("to-v2-finished")
-- 
2.43.0


From 7e51f7f2f383b90d43a22285510250ea36cb32c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 26/47] fix: do not mistake an unreadable repository for an
 empty one

Path.glob() hides errors. If the repository directory could not be read (I/O
error, too many open files), then the history seemed to be empty and gc purged
the data of all revisions.
---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b299dcd..73b36c6 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -219,7 +219,11 @@ class Repository(object):
     def scan(self) -> None:
         self.history = []
         self._by_uuid = {}
-        for f in self.path.glob("*.rev"):
+        # Do not use glob() here: it hides errors, which then look like an
+        # empty history.
+        for f in self.path.iterdir():
+            if not f.name.endswith(".rev"):
+                continue
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-- 
2.43.0


From 7d7b5675dab7e85d2a60c57b0271ca1cbeebd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 27/47] fix: do not hide errors while listing and converting
 chunks

Path.glob() hides errors. Directories that could not be read were skipped by
the migration to v2, which lost their chunks, and by gc.
---
 src/backy/rbd/chunked/store.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index de360a4..752ddc8 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -39,19 +39,19 @@ class Store(object):
 
     def convert_to_v2(self) -> None:
         self.log.info("to-v2")
-        for path in self.path.glob("*/*/*.chunk.lzo"):
-            new = path.relative_to(self.path)
-            dir, _, c = new.parts
-            new = self.path / dir / c
-            path.rename(new)
-        for path in self.path.glob("*/??"):
-            if path.is_dir():
+        # Do not use glob() here: it hides errors, and chunks that are not
+        # converted are lost.
+        for dir in self._dirs(self.path):
+            for subdir in self._dirs(dir):
+                for path in subdir.iterdir():
+                    if path.name.endswith(".chunk.lzo"):
+                        path.rename(dir / path.name)
                 try:
-                    path.rmdir()
+                    subdir.rmdir()
                 except OSError as e:
                     # e.g. temporary files of an interrupted backup
                     self.log.warning(
-                        "to-v2-directory-kept", path=str(path), exc=str(e)
+                        "to-v2-directory-kept", path=str(subdir), exc=str(e)
                     )
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
@@ -59,8 +59,14 @@ class Store(object):
 
     def ls(self) -> Iterable[Hash]:
         # XXX this is fucking expensive
-        for file in self.path.glob("*/*.chunk.lzo"):
-            yield file.name.removesuffix(".chunk.lzo")
+        for dir in self._dirs(self.path):
+            for file in dir.iterdir():
+                if file.name.endswith(".chunk.lzo"):
+                    yield file.name.removesuffix(".chunk.lzo")
+
+    @staticmethod
+    def _dirs(path: Path) -> list[Path]:
+        return [p for p in path.iterdir() if p.is_dir()]
 
     def purge(self, used_chunks: Set[Hash]) -> None:
         # This assumes exclusive lock on the store. This is guaranteed by
-- 
2.43.0


From f69a9c17280bd87ec000c14ef8f547c3df3cb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 28/47] fix: do not treat chunks as corrupt if we run out of
 resources

Verifying with too many open files removed good chunks and revisions.
---
 src/backy/rbd/__init__.py      | 7 ++++++-
 src/backy/rbd/chunked/chunk.py | 8 ++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 1565cf0..c15757a 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -228,7 +228,12 @@ class RBDSource(Source[RBDRestoreArgs]):
             try:
                 c = Chunk(self.store, candidate)
                 c._read_existing()
-            except Exception:
+            except Exception as e:
+                if isinstance(e, OSError) and not isinstance(
+                    e, BackendException
+                ):
+                    # We couldn't check it, this doesn't mean it's broken.
+                    raise
                 log.exception("verify-error", chunk=candidate)
                 errors = True
                 try:
diff --git a/src/backy/rbd/chunked/chunk.py b/src/backy/rbd/chunked/chunk.py
index 917534f..95e6663 100644
--- a/src/backy/rbd/chunked/chunk.py
+++ b/src/backy/rbd/chunked/chunk.py
@@ -1,4 +1,5 @@
 import binascii
+import errno
 import io
 import os
 import tempfile
@@ -54,6 +55,13 @@ class Chunk(object):
                     data = f.read()
                     data = lzo.decompress(data)
             except (lzo.error, IOError) as e:
+                if isinstance(e, OSError) and e.errno in (
+                    errno.EMFILE,
+                    errno.ENFILE,
+                    errno.ENOMEM,
+                ):
+                    # This doesn't tell us anything about the chunk.
+                    raise
                 raise BackendException from e
 
             disk_hash = hash(data)
-- 
2.43.0


From 9acb277db61640dc86c0e03b99d9721fce9897f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 29/47] fix: do not mistake an inaccessible mapping for an
 empty image

os.path.exists() hides errors, gc then purged the chunks of the revision.
---
 src/backy/rbd/chunked/file.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backy/rbd/chunked/file.py b/src/backy/rbd/chunked/file.py
index ced489e..a443ca0 100644
--- a/src/backy/rbd/chunked/file.py
+++ b/src/backy/rbd/chunked/file.py
@@ -69,17 +69,18 @@ class File(object):
             self.mode += "w"
         self.mode = "".join(set(self.mode))
 
-        if not os.path.exists(name) and "w" not in self.mode:
-            raise FileNotFoundError("File not found: {}".format(self.name))
-
-        if not os.path.exists(name):
+        try:
+            f = open(self.name, "r")
+        except FileNotFoundError:
+            if "w" not in self.mode:
+                raise
             self._mapping = {}
             self.size = 0
         else:
             # The mapping stores its chunk IDs as strings, because JSON can't
             # have ints as keys. We convert them explicitly back to integers
             # because we keep computing with them.
-            with open(self.name, "r") as f:
+            with f:
                 # Safeguard: Make sure the file looks like json.
                 if f.read(2) != '{"':
                     raise ValueError(
-- 
2.43.0


From 25503be3a678a4aea28c44d481d3400085ed927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 30/47] fix: collect garbage despite revisions without any data

---
 src/backy/rbd/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index c15757a..d09845c 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -275,6 +275,12 @@ class RBDSource(Source[RBDRestoreArgs]):
         # TODO: also remove mapping file
         # TODO: purge quarantine store
         for revision in self.repository.local_history:
+            if (
+                "duration" not in revision.stats
+                and not self._path_for_revision(revision).exists()
+            ):
+                # The backup was interrupted before it stored anything.
+                continue
             used_chunks.update(self.open(revision)._mapping.values())
         self.store.purge(used_chunks)
         # TODO: move this to cli/daemon?
-- 
2.43.0


From bd90f4676dddfe0c8efc764c2c26f28491c0a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 31/47] fix: keep the job running if its repository can not be
 read

---
 src/backy/daemon/scheduler.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index f795e63..7542145 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -208,11 +208,18 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
+            next_tags: Optional[Set[str]]
+            try:
+                self.repository.connect()
 
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+                next_time, next_tags = self.schedule.next(
+                    backy.utils.now(), self.spread, self.repository
+                )
+            except Exception:
+                # We must not give up. Try again below, where errors are
+                # handled.
+                self.log.exception("planning-failed")
+                next_time, next_tags = backy.utils.now(), None
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
@@ -229,7 +236,7 @@ class Job(object):
             self.log.info(
                 "waiting",
                 next_time=format_datetime_local(self.next_time)[0],
-                next_tags=", ".join(next_tags),
+                next_tags=", ".join(next_tags or []),
             )
             run_immediately = await self._wait_for_deadline()
 
@@ -239,6 +246,11 @@ class Job(object):
             self.next_tags = None
 
             try:
+                if next_tags is None:
+                    self.repository.connect()
+                    _, next_tags = self.schedule.next(
+                        backy.utils.now(), self.spread, self.repository
+                    )
                 self.update_status("checking neighbours")
                 if not run_immediately and await self._wait_for_leader(
                     next_time
-- 
2.43.0


From cb47f822c8ba2965d24454368208e77da988316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 32/47] fix: apply changed schedules to existing jobs when
 reloading

If only the schedule of a job was edited, its configuration file (used by
the commands) kept the old schedule and the job kept waiting for the old
deadline.
---
 src/backy/daemon/__init__.py  |  3 +++
 src/backy/daemon/scheduler.py | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 0769b67..d1cc9f2 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -131,6 +131,9 @@ class BackyDaemon(object):
                 job.stop()
                 job.configure(config)
                 job.start()
+            elif self.schedules[config["schedule"]].config != job.last_schedule:
+                self.log.info("changed-schedule", job_name=name)
+                job.reschedule()
 
         for name, job in list(self.jobs.items()):
             if name not in self.config["jobs"]:
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 7542145..269576c 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -40,6 +40,7 @@ class Job(object):
     path: Path
     logfile: Path
     last_config: Optional[dict] = None
+    last_schedule: Optional[dict] = None
     daemon: "BackyDaemon"
     run_immediately: asyncio.Event
     errors: int = 0
@@ -65,6 +66,17 @@ class Job(object):
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
         self.source.store()
         self.last_config = config
+        self.last_schedule = self.schedule.config
+
+    def reschedule(self) -> None:
+        """Take over changes of the schedule without disturbing a running
+        backup."""
+        self.source.store()
+        self.last_schedule = self.schedule.config
+        if self.next_time:
+            # waiting for a deadline of the old schedule
+            self.stop()
+            self.start()
 
     @property
     def spread(self) -> int:
-- 
2.43.0


From 4c0b4346b83ed9fe78b0725b6dfdea31b8f689e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 33/47] fix: don't lose a reload while the API is being
 reconfigured

---
 src/backy/daemon/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index d1cc9f2..3162584 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -251,10 +251,11 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
+                # Must happen first: we may be reloaded while reconfiguring.
+                self.reload_api.clear()
                 await api.reconfigure(
                     self.api_tokens, self.api_addrs, self.api_port
                 )
-                self.reload_api.clear()
                 await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
-- 
2.43.0


From f5b8ed55f2abeba2ba3c723a8141c54293e76f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 34/47] fix: pulling metadata must not replace local revisions

If a repository was copied between servers both have revisions with the same
id. Pulling turned the local ones into revisions of the peer and removed them
once the peer did not have them any longer.
---
 src/backy/daemon/scheduler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 269576c..9b8bf30 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -516,7 +516,13 @@ class Job(object):
             log.warning("pull-removing-unknown-rev", rev_uuid=uuid)
             self.repository.find_by_uuid(uuid).remove(force=True)
 
+        # Repositories can be copied between servers: never replace revisions
+        # that are stored here (or belong to a different peer).
+        other_uuids = {r.uuid for r in self.repository.history} - local_uuids
         for r in remote_revs:
+            if r.uuid in other_uuids:
+                log.warning("pull-ignoring-duplicate-rev", rev_uuid=r.uuid)
+                continue
             if r.uuid in local_uuids:
                 if (
                     r.to_dict()
-- 
2.43.0


From 29be4dbd0a185d1ed5f08559f594c1c3b47d7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 35/47] fix: ask peers about exactly this job

The name was used as a regular expression: a job named "a.b" could be
skipped because of the backup of "a-b".
---
 src/backy/daemon/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9b8bf30..6307bd2 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -118,10 +119,11 @@ class Job(object):
 
     async def _wait_for_leader(self, next_time: datetime.datetime) -> bool:
         api = None
+        job_filter = f"^{re.escape(self.name)}$"
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[api[server].fetch_status(job_filter) for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -179,7 +181,7 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (await api[leader].fetch_status(job_filter))[0]
                 except (ClientError, asyncio.TimeoutError):
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From cbaae8a0f5a6ae9c96ecd3116972433ff3941abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 36/47] fix: an address which can't be bound must not stop API
 reconfiguration

---
 src/backy/daemon/api.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index f20afcd..634353b 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -83,10 +83,16 @@ class BackyAPI:
         for bind_addr in bind_addrs:
             if bind_addr in self.sites:
                 continue
-            self.sites[bind_addr] = site = TCPSite(
-                self.runner, bind_addr[0], bind_addr[1]
-            )
-            await site.start()
+            site = TCPSite(self.runner, bind_addr[0], bind_addr[1])
+            try:
+                await site.start()
+            except Exception:
+                # Must not keep us from applying the remaining (and any
+                # later) configuration. Retried with the next reload.
+                self.log.exception("site-failed", site=site.name)
+                await site.stop()
+                continue
+            self.sites[bind_addr] = site
             self.log.info("added-site", site=site.name)
         for bind_addr, site in list(self.sites.items()):
             if bind_addr in bind_addrs:
-- 
2.43.0


From f2767e8894e7cc84dad70e3e2d5f1b39579108ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 37/47] fix: unmap the image if its device cannot be opened

---
 src/backy/rbd/rbd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index 281718c..7d019c8 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -160,11 +160,10 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            with open(mapped["device"], "rb", buffering=CHUNK_SIZE) as source:
+                yield source
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From 82026e104a5f0f875ede5ab767ecc6f309a8cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 38/47] fix: --dry-run must not modify state

---
 src/backy/cli/__init__.py | 45 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 5f5c833..dfde48e 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -237,6 +237,9 @@ class Command(object):
         if bg:
             for repo in repos:
                 log = self.log.bind(job_name=repo.name)
+                if self.dry_run:
+                    log.info("dry-run-trigger")
+                    continue
                 try:
                     # TODO support tags
                     await self.api.run_job(repo.name)
@@ -252,8 +255,13 @@ class Command(object):
             assert (
                 self.source.repository.path == repo.path
             ), "only the current job is supported without --bg"
-            repo._clean()
             tags_ = set(t.strip() for t in tags.split(","))
+            if self.dry_run:
+                if not force:
+                    repo.validate_tags(tags_)
+                self.log.info("dry-run-backup", tags=tags)
+                return 0
+            repo._clean()
             if not force:
                 repo.validate_tags(tags_)
             r = Revision.create(repo, tags_, self.log)
@@ -269,22 +277,38 @@ class Command(object):
         **restore_args: Any,
     ) -> int:
         r = self.source.repository.find(revision)
+        if self.dry_run:
+            self.log.info("dry-run-restore", revision_uuid=r.uuid)
+            return 0
         return self.source.restore(
             r, self.source.restore_type.from_args(**restore_args)
         )
 
     def distrust(self, repo: Repository, revision: str) -> None:
-        repo.distrust(repo.find_revisions(revision))
+        revs = repo.find_revisions(revision)
+        if self.dry_run:
+            for r in revs:
+                self.log.info("dry-run-distrust", revision_uuid=r.uuid)
+            return
+        repo.distrust(revs)
 
     def verify(self, revision: str) -> int:
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
+            if self.dry_run:
+                self.log.info("dry-run-verify", revision_uuid=r.uuid)
+                continue
             ret = max(ret, self.source.verify(r), key=abs)
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
-        repo.rm(repo.find_revisions(revision))
+        revs = repo.find_revisions(revision)
+        if self.dry_run:
+            for r in revs:
+                self.log.info("dry-run-rm", revision_uuid=r.uuid)
+            return
+        repo.rm(revs)
 
     def tags(
         self,
@@ -301,6 +325,12 @@ class Command(object):
             expect_ = None
         else:
             expect_ = set(t.strip() for t in expect.split(","))
+        if self.dry_run:
+            if not force and tag_action != "remove":
+                repo.validate_tags(tags_)
+            for r in repo.find_revisions(revision):
+                self.log.info("dry-run-tags", revision_uuid=r.uuid)
+            return 0
         success = repo.tags(
             tag_action,
             revision,
@@ -316,6 +346,9 @@ class Command(object):
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
         assert self.source.repository.path == repo.path
+        if self.dry_run:
+            self.log.info("dry-run-gc", expire=expire)
+            return 0
         if expire:
             repo.expire()
         if expire and not local:
@@ -344,6 +377,9 @@ class Command(object):
             ids = reports.split(",")
         for id in ids:
             path = repo.report_path.joinpath(id).with_suffix(".report")
+            if self.dry_run:
+                log.info("dry-run-report-delete", id=id)
+                continue
             path.unlink()
             log.info("report-deleted", id=id)
 
@@ -451,6 +487,9 @@ class Command(object):
 
     async def reload_daemon(self):
         """Reload the configuration."""
+        if self.dry_run:
+            self.log.info("dry-run-reload-daemon")
+            return
         await self.api.reload_daemon()
 
 
-- 
2.43.0


From 3f2084e3be77ff70167cb687e1497f758b5d7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 39/47] fix: wait for cancelled tasks before stopping the event
 loop

On shutdown the loop was stopped in the iteration that delivered the
cancellation to the shutdown task, so others, like the one waiting for
the backup-completed callback, never learned about it and did not
terminate their programs.
---
 src/backy/daemon/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 3162584..bfb155b 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -9,7 +9,7 @@ import signal
 import sys
 import time
 from pathlib import Path
-from typing import IO, List, Optional, Pattern
+from typing import IO, List, Optional, Pattern, Set
 
 import aiofiles.os as aos
 import aioshutil
@@ -52,6 +52,7 @@ class BackyDaemon(object):
     reload_api: asyncio.Event
 
     loop: Optional[asyncio.AbstractEventLoop] = None
+    cancelled_tasks: Set[asyncio.Task]
 
     def __init__(self, config_file: Path, log: BoundLogger):
         self.config_file = config_file
@@ -67,6 +68,7 @@ class BackyDaemon(object):
         self.api_tokens = {}
         self.api_cli_default = {}
         self.peers = {}
+        self.cancelled_tasks = set()
 
     def _read_config(self):
         if not self.config_file.exists():
@@ -269,12 +271,16 @@ class BackyDaemon(object):
             if task.get_coro().__name__.startswith("test_"):  # type: ignore
                 # Support pytest-asyncio integration.
                 continue
+            if task in self.cancelled_tasks:
+                # Do not disturb its cleanup.
+                continue
             self.log.debug(
                 "cancelling-task",
                 name=task.get_name(),
                 coro_name=task.get_coro().__name__,  # type: ignore
             )
             task.cancel()
+            self.cancelled_tasks.add(task)
 
     async def shutdown_loop(self):
         assert self.loop
@@ -284,6 +290,11 @@ class BackyDaemon(object):
                 await asyncio.sleep(0.25)
             except asyncio.CancelledError:
                 break
+        # The others need to learn about their cancellation, too: they
+        # terminate the programs that they have started.
+        others = self.cancelled_tasks - {asyncio.current_task()}
+        if others:
+            await asyncio.wait(others, timeout=5)
         self.log.info("stopping-loop")
         self.loop.stop()
 
-- 
2.43.0


From cd6cafd08f63bc46417fe76308805cc5e88f6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 40/47] fix: keep the parent's snapshot when a backup fails

The next backup had to be a full one otherwise.
---
 src/backy/rbd/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index d09845c..d3ac028 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -517,7 +517,7 @@ class CephRBD:
         return "{}/{}".format(self.pool, self.image)
 
     def __exit__(self, exc_type=None, exc_val=None, exc_tb=None):
-        self._delete_old_snapshots()
+        self._delete_old_snapshots(failed=exc_type is not None)
 
     def get_parent(self) -> Optional[Revision]:
         if self.always_full:
@@ -575,7 +575,7 @@ class CephRBD:
                 report=lambda s, t, o: report(ChunkMismatchReport(s, t, o)),
             )
 
-    def _delete_old_snapshots(self) -> None:
+    def _delete_old_snapshots(self, failed: bool = False) -> None:
         # Clean up all snapshots except the one for the most recent valid
         # revision.
         # Previously we used to remove all snapshots but the one for this
@@ -583,7 +583,11 @@ class CephRBD:
         # full backups instead of new deltas based on the most recent valid
         # one.
         # XXX this will break if multiple servers are active
-        if not self.always_full and self.revision.repository.local_history:
+        if failed:
+            # The next backup will be based on our parent again.
+            parent = self.get_parent()
+            keep_snapshot_revision = parent.uuid if parent else None
+        elif not self.always_full and self.revision.repository.local_history:
             keep_snapshot_revision = self.revision.repository.local_history[
                 -1
             ].uuid
-- 
2.43.0


From 1ec215b8d31cb5506fb52a43a338b35ae084c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 41/47] fix: tell the callback about the current revisions

They may have been changed by pulling and pushing.
---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 6307bd2..ab61500 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -338,6 +338,8 @@ class Job(object):
             return
 
         self.log.info("callback-started")
+        # Pulling and pushing do not (reliably) update our view.
+        self.repository.scan()
         status = yaml.safe_dump(
             [r.to_dict() for r in self.repository.history]
         ).encode("utf-8")
-- 
2.43.0


From 76cf588127590040bc1a27171af1b2c692a3c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 42/47] fix: show-jobs without a pattern

Nothing was shown but an exception, and jobs that were not asked for were
counted.
---
 src/backy/cli/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index dfde48e..8801c6a 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -433,11 +433,10 @@ class Command(object):
             "Next Tags",
         )
 
-        jobs = await self.api.fetch_status(self.jobs)
+        jobs = await self.api.fetch_status(self.jobs or "")
+        jobs = [j for j in jobs if j["job"] in repo_names]
         jobs.sort(key=lambda j: j["job"])
         for job in jobs:
-            if job["job"] not in repo_names:
-                continue
             overdue = (
                 humanize.naturaldelta(job["sla_overdue"])
                 if job["sla_overdue"]
@@ -465,6 +464,8 @@ class Command(object):
         backups = await self.api.list_backups()
         if self.jobs:
             backups = list(filter(re.compile(self.jobs).search, backups))
+        else:
+            backups = [b for b in backups if b in repo_names]
         for b in backups:
             t.add_row(b, "-", "-", "Dead", "-", "", "-", "-", "")
 
-- 
2.43.0


From 307bf54338e003c0985122c2feb674d9286984b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 43/47] fix: tags are no markup in log and show-jobs

---
 src/backy/cli/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 8801c6a..42cad8b 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -13,6 +13,7 @@ import tzlocal
 from aiohttp import ClientResponseError
 from aiohttp.web_exceptions import HTTPNotFound
 from rich import print as rprint
+from rich.markup import escape
 from rich.table import Column, Table
 from structlog.stdlib import BoundLogger
 
@@ -199,12 +200,16 @@ class Command(object):
                 duration = "-"
 
             if r.pending_changes:
-                added = [f"+[on green]{t}[/]" for t in r.tags - r.orig_tags]
-                removed = [f"-[on red]{t}[/]" for t in r.orig_tags - r.tags]
-                same = list(r.orig_tags & r.tags)
+                added = [
+                    f"+[on green]{escape(t)}[/]" for t in r.tags - r.orig_tags
+                ]
+                removed = [
+                    f"-[on red]{escape(t)}[/]" for t in r.orig_tags - r.tags
+                ]
+                same = [escape(t) for t in r.orig_tags & r.tags]
                 tags = ",".join(added + removed + same)
             else:
-                tags = ",".join(r.tags)
+                tags = ",".join(escape(t) for t in r.tags)
 
             t.add_row(
                 format_datetime_local(r.timestamp)[0],
@@ -456,7 +461,7 @@ class Command(object):
                 overdue,
                 job["status"],
                 last_time,
-                job["last_tags"],
+                job["last_tags"] and escape(job["last_tags"]),
                 last_duration,
                 next_time,
                 job["next_tags"],
-- 
2.43.0


From 6071166685b9af568e49b216c2e3dabd4b1aa825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 44/47] fix: one broken repository must not keep the daemon
 from starting

Neither the start nor a reload may fail because one job's repository is
unusable. The job tries again.
---
 src/backy/daemon/scheduler.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index ab61500..cee85c7 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -63,16 +63,27 @@ class Job(object):
         repository = Repository(
             self.path, self.daemon.schedules[config["schedule"]], self.log
         )
-        repository.connect()
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
-        self.source.store()
+        self._connect_or_retry()
         self.last_config = config
         self.last_schedule = self.schedule.config
 
+    def _connect(self) -> None:
+        self.repository.connect()
+        self.source.store()
+
+    def _connect_or_retry(self) -> None:
+        try:
+            self._connect()
+        except Exception:
+            # This must not affect other jobs. The job tries again when it
+            # plans its next backup.
+            self.log.exception("connect-failed")
+
     def reschedule(self) -> None:
         """Take over changes of the schedule without disturbing a running
         backup."""
-        self.source.store()
+        self._connect_or_retry()
         self.last_schedule = self.schedule.config
         if self.next_time:
             # waiting for a deadline of the old schedule
@@ -224,7 +235,7 @@ class Job(object):
             )
             next_tags: Optional[Set[str]]
             try:
-                self.repository.connect()
+                self._connect()
 
                 next_time, next_tags = self.schedule.next(
                     backy.utils.now(), self.spread, self.repository
@@ -261,7 +272,7 @@ class Job(object):
 
             try:
                 if next_tags is None:
-                    self.repository.connect()
+                    self._connect()
                     _, next_tags = self.schedule.next(
                         backy.utils.now(), self.spread, self.repository
                     )
-- 
2.43.0


From c7db097497ac5c69b3990a8c2b89275a14f97637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:45 +0000
Subject: [PATCH 45/47] fix: waiting for a deadline or an event leaves no task
 behind

---
 src/backy/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index d4c8fa2..b25b026 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -476,9 +476,16 @@ async def has_recent_changes(path: str, reference_time: float) -> bool:
 
 
 async def delay_or_event(delay: float, event: Event) -> Optional[Literal[True]]:
-    return await next(
-        asyncio.as_completed([asyncio.sleep(delay), event.wait()])
-    )
+    tasks = [
+        asyncio.ensure_future(asyncio.sleep(delay)),
+        asyncio.ensure_future(event.wait()),
+    ]
+    try:
+        return await next(asyncio.as_completed(tasks))
+    finally:
+        # The other one would go on waiting.
+        for task in tasks:
+            task.cancel()
 
 
 async def time_or_event(
-- 
2.43.0


From ea4546ef6e2c4e0cc63a381fcfbc05c8f311abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 46/47] fix: verification after a backup took chunks away from
 running restores

---
 src/backy/rbd/__init__.py | 45 +++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index d3ac028..e27a20c 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -128,8 +128,31 @@ class RBDSource(Source[RBDRestoreArgs]):
     # Making backups
 
     @locked(target=".backup", mode="exclusive")
-    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision) -> bool:
+        verified = self._backup(revision)
+
+        # If there are distrusted revisions, then perform at least one
+        # verification after a backup - for good measure and to keep things
+        # moving along automatically. This could also be moved into the
+        # scheduler.
+        self.repository.scan()
+        # TODO: move this to cli/daemon?
+        for revision in reversed(
+            self.repository.get_history(clean=True, local=True)
+        ):
+            if revision.trust == Trust.DISTRUSTED:
+                self.log.warning("inconsistent")
+                try:
+                    self._verify(revision)
+                except BlockingIOError:
+                    # Chunks are in use (e.g. by a restore). The next backup
+                    # tries again.
+                    self.log.warning("verify-skipped")
+                break
+        return verified
+
+    @locked(target=".purge", mode="shared")
+    def _backup(self, revision: Revision) -> bool:
         self.repository.path.joinpath("last").unlink(missing_ok=True)
         self.repository.path.joinpath("last.rev").unlink(missing_ok=True)
 
@@ -173,31 +196,17 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-
-        # If there are distrusted revisions, then perform at least one
-        # verification after a backup - for good measure and to keep things
-        # moving along automatically. This could also be moved into the
-        # scheduler.
-        self.repository.scan()
-        # TODO: move this to cli/daemon?
-        for revision in reversed(
-            self.repository.get_history(clean=True, local=True)
-        ):
-            if revision.trust == Trust.DISTRUSTED:
-                self.log.warning("inconsistent")
-                self._verify(revision)
-                break
         return verified
 
-    # Verifying changes metadata, removes revisions and purges chunks. This
-    # must not happen while a backup or restore is running.
     @locked(target=".backup", mode="exclusive")
-    @locked(target=".purge", mode="exclusive")
     def verify(self, revision: Revision):
         # Our view may predate the lock.
         self.repository.scan()
         return self._verify(self.repository.find_by_uuid(revision.uuid))
 
+    # Verifying changes metadata, removes revisions and purges chunks. This
+    # must not happen while a backup or restore is running.
+    @locked(target=".purge", mode="exclusive")
     @report_status
     def _verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
-- 
2.43.0


From c547411511b2cb20626fafee5f23f2472c6ccfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:29 +0000
Subject: [PATCH 47/47] fix: clearing a large range takes memory for all of it

---
 src/backy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index b25b026..fa07e46 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -610,7 +610,10 @@ def _fake_fallocate(fd, mode, offset, len_):
     if mode & FALLOC_FL_PUNCH_HOLE:
         old = fd.tell()
         fd.seek(offset)
-        fd.write(b"\x00" * len_)
+        while len_ > 0:
+            filler = min(len_, CHUNK_SIZE) * b"\x00"
+            fd.write(filler)
+            len_ -= len(filler)
         fd.seek(old)
     else:
         raise NotImplementedError(
-- 
2.43.0

