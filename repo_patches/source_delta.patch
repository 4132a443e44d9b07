From 062925b93e1e3a9a541a6ad3b014c82ef91d65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 01/45] fix: write member bag entries that carry extra info
 fields

MemberInfo.format() referred to an undefined name when extra info was set
and dropped the (empty) URL column required ahead of it.
---
 multibag/access/multibag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..d554256 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,11 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            # the URL field must be present (if empty) when there is extra info
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
-- 
2.43.0


From cc89161ccf87889b279533fd962b22e825f9b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 02/45] fix: load the recorded deleted paths before updating
 them

set_deleted() and unset_deleted() never called deleted_paths(), so saving
afterwards discarded every path already listed in deleted.txt.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index d554256..0ac9a51 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -649,7 +649,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -665,7 +665,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From 82dd8412b2c042d923ef0cfbabe2af4de0e4a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 03/45] fix: load the recorded member bags before removing one

remove_member_bag() never called member_bags(), so the removal of a listed
bag was silently lost.
---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 0ac9a51..73a13c0 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -510,7 +510,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
-- 
2.43.0


From f6e85034be57a0a7352f9db5f894bcb938896349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 04/45] fix: honor an exclude argument given to
 update_for_member as a string

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 73a13c0..350dce6 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -580,7 +580,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
-- 
2.43.0


From e6ac07735846772d3a1484e753e7e66f116ee236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 05/45] fix: resolve the multibag tag directory consistently
 when reading tag files

The member bag and file lookup readers failed when bag-info.txt gives the
Multibag-Tag-Directory tag more than once.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 350dce6..bef9dcf 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -206,7 +206,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -246,7 +246,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
-- 
2.43.0


From 943a8ba4716ea8989a2e9430bf67cfc3a0c35320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 06/45] fix: ignore spaces around the TAB delimiters in
 multibag tag files

The profile says that such spaces are not part of the fields.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index bef9dcf..96a1e15 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -73,7 +73,7 @@ class MemberInfo(object):
         if len(fields) < 1 or not fields[0]:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip(' ')
         comm = None
         uri = None
         if len(fields) > 0:
@@ -110,7 +110,7 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
+    out = [f.strip(' ') for f in line.strip().split('\t')]
     if len(out) < 2:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
-- 
2.43.0


From 89609c948479df10da4fbf2e96d20419e2d5add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 07/45] fix: allow _NoUpdateHeadBag to be instantiated

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 96a1e15..f389872 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -790,7 +790,7 @@ class _NoUpdateHeadBag(ExtendedReadWritableBag, HeadBagReadMixin):
 
         :param str bagpath:  a filepath to the bag's root directory.  
         """
-        super(HeadBag, self).__init__(bagpath)
+        super(_NoUpdateHeadBag, self).__init__(bagpath)
         HeadBagReadMixin.__init__(self)
 
     
-- 
2.43.0


From 1f21a57326a9e26ba4c1c836f49e4a7443b73895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 08/45] fix: exclude the subdirectories of an excluded
 directory of a read-only bag

Emptying the list of subdirectories does not prune the walk of a bag that is
opened read-only, so files further below were added to the file lookup.
---
 multibag/access/multibag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index f389872..bd566a6 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -594,8 +594,12 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                 self.add_file_lookup(incl, member_name)
 
             elif bag.isdir(incl):
+                pruned = []
                 for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
+                    if d and (d in exclude or
+                              any(d.startswith(p+'/') for p in pruned)):
+                        # read-only bags cannot prune their walk via subdirs
+                        pruned.append(d)
                         for i in range(len(subdirs)):
                             subdirs.pop(0)
                         continue
-- 
2.43.0


From 1ea99d033b457895d7d439873afae66e02e9be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 09/45] fix: do not share the deprecates list between the
 amendee and the new head

Appending to it also changed the in-memory tag data of the amendee.
---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..170683a 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -277,7 +277,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From 8e44dfed18e06ab222f4fdb8361916ad9e193be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 10/45] fix: record the bag name for a single-bag aggregation
 given with a trailing slash

The name written to member-bags.tsv was empty when the bag directory was
given with a trailing slash.
---
 multibag/amend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 170683a..ddd506a 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,8 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
-        mi = MemberInfo(bagname, pid, comment, *info)
+        mi = MemberInfo(self.bag.name, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
 
-- 
2.43.0


From 7d20a1bbbe57adc44e414599a50143e0aa96b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:41 +0000
Subject: [PATCH 11/45] fix: carry the deleted paths of an amended aggregation
 over to the new head bag

The profile requires it, excepting the paths that are returned to the
aggregation by the amendment; without it the deleted files reappear.
---
 multibag/amend.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index ddd506a..87bbba2 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -233,6 +233,7 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -267,6 +268,19 @@ class Amender(object):
             # just add the files under 'data'
             self._newhead.update_for_member(self._oldhead, make_member=False)
 
+    def _init_deleted(self):
+        if self._oldhead.is_head_multibag():
+            # files deleted from the aggregation remain deleted unless they are
+            # being returned by this amendment
+            for path in self._oldhead.iter_deleted():
+                self._newhead.set_deleted(path)
+
+    def _undelete_files_in(self, bag):
+        if self._oldhead.is_head_multibag():
+            for path in self._oldhead.deleted_paths():
+                if bag.exists(path):
+                    self._newhead.unset_deleted(path)
+
     def _init_multibag_info(self, keepprofver=False):
         profver = CURRENT_VERSION
         if keepprofver and 'Multibag-Version' in self._oldhead.info:
@@ -321,6 +335,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -348,9 +363,11 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From 5ae7fa1af2367aa22be343a47ba8049892d255a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:41 +0000
Subject: [PATCH 12/45] fix: compare versions given as strings with versions
 given as tuples

---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..cf1188e 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return tuple(self.fields) == tuple(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return tuple(self.fields) < tuple(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From 235e453ae1c9c680426afd153e9a467ed88a0f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:40 +0000
Subject: [PATCH 13/45] fix: keep the tag manifest entries of restored files in
 the bag's root directory

Their paths were built with a leading slash, which matches no manifest entry.
---
 multibag/restore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..e0ee44c 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -196,7 +196,7 @@ class BagRestorer(object):
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
                 if not os.path.exists(destf):
-                    srcpath = "/".join([root, f])
+                    srcpath = os.path.join(root, f)
                     srcbag.replicate(srcpath, self._destdir)
                     updated.append(srcpath)
 
@@ -213,7 +213,7 @@ class BagRestorer(object):
                     os.makedirs(destf)
 
                     # try to copy the modification time
-                    srcpath = "/".join([root, f])
+                    srcpath = os.path.join(root, f)
                     times = srcbag.timesfor(srcpath)
                     if times:
                         os.utime(destf, (time.time(), times.mtime))
-- 
2.43.0


From 11576c42f4438d3488ffa7419c5b4aca0dcef054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:40 +0000
Subject: [PATCH 14/45] fix: restore member bags that use different checksum
 algorithms

Merging the manifests failed with a KeyError when a file already restored has
no checksum of an algorithm used by the member bag.
---
 multibag/restore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index e0ee44c..1e5d451 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -237,7 +237,7 @@ class BagRestorer(object):
                 
         for path in destbag.entries:
             for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
+                if path not in updated_by_alg[alg] and alg in destbag.entries[path]:
                     updated_by_alg[alg][path] = destbag.entries[path][alg]
 
         for alg in updated_by_alg:
-- 
2.43.0


From 5d6e19b5361980d51ea5d58b7687a2a1ee8b92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:00 +0000
Subject: [PATCH 15/45] fix: do not lose fetch.txt entries when merging them

Entries were keyed by the last word of the line, so file names with spaces
collided, and an entry at the end of a file with no final newline was run
together with the next one.
---
 multibag/restore.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 1e5d451..23cd28b 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -167,9 +167,9 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2 and parts[2] not in fetch:
+                            fetch[parts[2]] = line
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -272,14 +272,14 @@ class BagRestorer(object):
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2:
+                            fetch[parts[2]] = line
         if fetch:
             fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
-                    fd.write(fetch[f])
+                    fd.write(fetch[f].strip() + u"\n")
 
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
-- 
2.43.0


From 9e334ef87d384a5e548bec88267c97c880fa8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:15 +0000
Subject: [PATCH 16/45] fix: merge fetch.txt in the order required by the
 profile when restoring a bag

restore() passed the members in reverse order and without the head bag, so
the oldest entry won and the head bag's entries were lost; entries for
deleted files were also retained.
---
 multibag/restore.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 23cd28b..c476759 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -267,16 +267,25 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
-            bag = open_bag(src)
+            if member.name == self._head.name:
+                bag = self._head
+            else:
+                bag = open_bag(self.get_member_bag(member.name))
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
                         parts = line.strip().split(None, 2)
                         if len(parts) > 2:
                             fetch[parts[2]] = line
+        deleted = self._head.deleted_paths()
+        for path in list(fetch):
+            if path in deleted or any(path.startswith(d+'/') for d in deleted):
+                del fetch[path]
+
+        fp = os.path.join(self._destdir, "fetch.txt")
+        if os.path.exists(fp):
+            os.remove(fp)
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
                     fd.write(fetch[f].strip() + u"\n")
@@ -307,8 +316,7 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch()
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From c8456b8bbc909cc3801b72296af46fd4ee0c36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:33 +0000
Subject: [PATCH 17/45] fix: honor the head bag's multibag tag directory when
 restoring a bag

aggregation-info.txt was ignored, and the restore failed when removing the
tag directory, for a head bag whose tag directory is not called multibag.
---
 multibag/restore.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index c476759..5fccac5 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -91,7 +91,8 @@ class BagRestorer(object):
         if not compdir:
             if self._fetcher:
                 # set a default cached directory inside the target destination bag
-                compdir = os.path.join(self._destdir, "multibag", "_membercache")
+                compdir = os.path.join(self._destdir, self._head.multibag_tag_dir,
+                                       "_membercache")
             else:
                 compdir = os.path.dirname(os.path.abspath(self._head.path))
         self._cachedir = compdir
@@ -295,13 +296,18 @@ class BagRestorer(object):
         properly recombine all of member bags in the multibag aggregation specified by the head bag
         into the destination bag. 
         """
+        tagdir = os.path.normpath(self._head.multibag_tag_dir)
+        if tagdir.split(os.sep)[0] in ['', os.curdir, os.pardir, 'data']:
+            raise MultibagError("Illegal multibag tag directory: "+tagdir)
+
         skip = self._head.deleted_paths()
         members = list(reversed(self._head.member_bags()))
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        agginfo = "/".join([self._head.multibag_tag_dir, "aggregation-info.txt"])
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -320,7 +326,7 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            shutil.rmtree(os.path.join(self._destdir, tagdir))
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From a915339e0e58e753525ba2ee78b5651b644f758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:36 +0000
Subject: [PATCH 18/45] fix: refuse to restore into a head bag that was opened
 read-only

Documented, but not enforced: without a destination the restore updated the
read-only bag in place.
---
 multibag/restore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index 5fccac5..d18b944 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -73,6 +73,8 @@ class BagRestorer(object):
         self._inplace = False
 
         if not destbag:
+            if isinstance(self._head, ReadOnlyHeadBag):
+                raise ValueError("destbag must be specified for a read-only head bag")
             destbag = self._head
             self._inplace = True
 
-- 
2.43.0


From 492335722f0ccc9b5d5cb94ef3e2ab2908ea9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:39 +0000
Subject: [PATCH 19/45] fix: support any iterator for naming the output bags

Iterators with no next() method (all in Python 3) failed, as did the report
of a naming iterator that is empty to begin with.
---
 multibag/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..5c1bbaa 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -158,6 +158,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
@@ -261,7 +262,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 593a5ae977c460d8359ba50c43c81077a224f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:02 +0000
Subject: [PATCH 20/45] fix: complain about applying a plan that has no
 manifests

The test was applied to the method rather than the list.
---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 5c1bbaa..5d1228c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -225,7 +225,7 @@ class SplitPlan(object):
                 member bag and returns its output path.  StopIteration
                 is raised when there are no more output bags to write.
         """
-        if not self.manifests:
+        if not self._manifests:
             if logger:
                 logger.warn("Requested plan execution, but no manifests are set")
             raise RuntimeError("No manifests set for output bags")
-- 
2.43.0


From 365b020876024b5f51eed3f68bb799bafc8cc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 21/45] fix: reserve the requested files for the head bag when
 splitting

The paths were normalized in the caller's list rather than the splitter's own
copy, so the reservation had no effect and the caller's list was changed.
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 5d1228c..424e553 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -537,9 +537,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From 3541f9b340e049198edabfa7973e608ab866a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:08 +0000
Subject: [PATCH 22/45] fix: do not overwrite the multibag tag files of a head
 bag that is split

They are replicated to the output head bag as hard links and were then
rewritten in place, corrupting the source bag.
---
 multibag/split.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 424e553..81be868 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -381,6 +381,12 @@ class SplitPlan(object):
                 if not os.path.isdir(mbagdir):
                     os.mkdir(mbagdir)
 
+                # the progenitor may be a head bag itself; never write through
+                # a hard link to its copy of a tag file
+                for f in "member-bags.tsv file-lookup.tsv aggregation-info.txt".split():
+                    if os.path.exists(os.path.join(mbagdir, f)):
+                        os.remove(os.path.join(mbagdir, f))
+
                 with io.open(os.path.join(mbagdir, "member-bags.tsv"),
                              'w', encoding=DEF_ENC) as fd:
                     for bag in memberbags:
-- 
2.43.0


From 52b4ae784ee578e8cc1193f1e7a20e24152dde58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:12 +0000
Subject: [PATCH 23/45] fix: treat only files in the root directory as special
 BagIt files

Payload files with such a name (e.g. data/bagit.txt) were left out of split
plans and, thus, lost.
---
 multibag/access/extended.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..750b88b 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,8 +159,8 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
@@ -168,8 +168,9 @@ class ExtendedReadMixin(object):
                 yield dir
             for file in files:
                 # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
-                    yield os.path.join(dir, file)
+                path = os.path.join(dir, file)
+                if not any([bool(spf.match(path)) for spf in special]):
+                    yield path
 
     def _load_bag_info(self):
         # this (re-)reads the bag-info data, loading it into an OrderedDict
-- 
2.43.0


From 75218a64cb5cae2a69fc007f865db98dc7858c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:31 +0000
Subject: [PATCH 24/45] fix: do not resolve paths into sibling directories of a
 bag

A path such as ../bag2/file was accepted for a bag called bag.
---
 multibag/access/extended.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 750b88b..95d6b2d 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -261,7 +261,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
         path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        bagdir = os.path.normpath(self._bagdir)
+        if path != bagdir and not path.startswith(os.path.join(bagdir, '')):
             return None
         return path
 
-- 
2.43.0


From e3b50b4b3f4b9832bc3ba447e13bfe7bad41f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 25/45] fix: report a failure to replicate a file

Copy errors were swallowed, and logging them failed with an AttributeError.
---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 95d6b2d..df76784 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -366,7 +366,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -375,7 +375,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.exception(msg, exc_info=True)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From 5adc9bb10d30b5e8058f4ad431b7750592c5d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:37 +0000
Subject: [PATCH 26/45] fix: reject manifest paths that point into a sibling
 directory of the bag

The common prefix was compared as a string, so ../bag2/file was considered
safe for a bag called bag.
---
 multibag/access/bagit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..a482691 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -553,8 +553,8 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and \
+               not real_path.startswith(os.path.join(bag_path, ''))
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
-- 
2.43.0


From d966955f22a7de7bfb2d68063f25761dfa21a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:49 +0000
Subject: [PATCH 27/45] fix: determine the name of a bag directory given with a
 trailing slash

---
 multibag/access/bagit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index a482691..c9c8a66 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -635,6 +635,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
+        location = location.rstrip("/") or "/"
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
-- 
2.43.0


From dcae6a280dbd92606979bf616bf012fda87d9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:18 +0000
Subject: [PATCH 28/45] fix: report a BagError raised while validating a bag as
 a failed test

Only BagValidationError has a message attribute in Python 3; the validator
failed with an AttributeError instead.
---
 multibag/validate/bag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..86c6628 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,7 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From e3b31573fe45d8ad7a487f1951a6e425b96468e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:22 +0000
Subject: [PATCH 29/45] fix: accept absolute URLs in the member bag list

The test was inverted for the network location, so proper absolute URLs were
reported as errors (but not PIDs with no network location).
---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..b585364 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -327,7 +327,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -407,7 +407,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From 59238bc52d5d716321eb0f0275f176cfad44b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:45 +0000
Subject: [PATCH 30/45] fix: report a bag that is not a head bag rather than
 failing on an assertion

A missing Multibag-Head-Version (or an empty tag directory name) is reported
as an error, but later tests then failed with an AssertionError.
---
 multibag/validate/headbag.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index b585364..706442f 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -204,7 +204,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -273,16 +272,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -457,16 +452,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -659,16 +650,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From aa1f46f79867f5bc25f9286673a7ea5eba51836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 31/45] fix: export and import validation issues

to_json_obj() referred to attributes that do not exist, from_tuple() did not
accept the output of to_tuple(), and an illegal type gave a TypeError.
---
 multibag/validate/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..5ee868d 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -87,7 +87,7 @@ class ValidationIssue(object):
     def type(self, issuetype):
         if issuetype not in issuetypes:
             raise ValueError("ValidationIssue: not a recognized issue type: "+
-                             issuetype)
+                             str(issuetype))
         self._type = issuetype
 
     @property
@@ -178,17 +178,17 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        return ValidationIssue(data[3], data[0], data[4], data[5], 
+                               data[6], data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From af23d9390e4833eb1240c4acf758ec2dea89b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:51 +0000
Subject: [PATCH 32/45] fix: bag paths that leave the bag directory are not
 part of the bag, even if they come back to it

---
 multibag/access/extended.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index df76784..47c312e 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -260,11 +260,10 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
     def _canon_path(self, path):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
-        path = os.path.normpath(os.path.join(self._bagdir, path))
-        bagdir = os.path.normpath(self._bagdir)
-        if path != bagdir and not path.startswith(os.path.join(bagdir, '')):
+        path = os.path.normpath(path)
+        if os.path.isabs(path) or path.split(os.sep)[0] == os.pardir:
             return None
-        return path
+        return os.path.normpath(os.path.join(self._bagdir, path))
 
     def exists(self, path):
         """
-- 
2.43.0


From da60bd6ca86dcc5a334bfeec1cdece89e47ecf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:55 +0000
Subject: [PATCH 33/45] fix: walk() of a writable bag refuses a start outside
 of the bag, as for a read-only bag

---
 multibag/access/extended.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 47c312e..b3c6c76 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -410,11 +410,11 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         """
         if not start:
             start = ''
-        start = os.path.join(*(re.split(r'/+', start)))
-        if os.path.isabs(start):
+        if start.startswith('/'):
             raise ValueError("walk(): start must not be absolute: "+start)
+        start = os.path.join(*(re.split(r'/+', start)))
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        if not self.isdir(start):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         for dir, subdirs, files in os.walk(root):
-- 
2.43.0


From be9849fc3da2846e7e4afd60650887c6e15f310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 34/45] fix: replicating over an existing file does not write
 through its hard link into another bag

---
 multibag/access/extended.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index b3c6c76..a3c8f38 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -357,6 +357,11 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                                   parent)
             os.makedirs(parent)
 
+        if os.path.isfile(destpath) and not os.path.samefile(source, destpath):
+            # replace the file rather than writing into it: it may be a hard
+            # link to a file of another bag
+            os.remove(destpath)
+
         if hardlink:
             try:
                 os.link(source, destpath)
-- 
2.43.0


From 965d6b7d14165e4add8359fbfe4cc3643e320f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:03 +0000
Subject: [PATCH 35/45] fix: text files of read-only bags are read with the
 same default encoding as those of writable bags

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index c9c8a66..d3766ec 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -259,7 +259,7 @@ class ReadOnlyBag(_bagit.Bag):
         """
         return self._root.fs.isdir(path)
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
-- 
2.43.0


From 1e7ee5aad278a0fcd4bc9f1fe53be1bb1ddf3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 36/45] fix: replicating from a read-only bag does not write
 through a hard link, nor into the bag itself

---
 multibag/access/extended.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index a3c8f38..09654fc 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -645,6 +645,15 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
                              parent)
             destfs.makedirs(parent)
 
+        if destfs.isfile(path):
+            if self._root.fs.hassyspath(path) and \
+               os.path.samefile(self._root.fs.getsyspath(path),
+                                destfs.getsyspath(path)):
+                return
+            # replace the file rather than writing into it: it may be a hard
+            # link to a file of another bag
+            destfs.remove(path)
+
         copy_file(self._root.fs, path, destfs, path)
 
     def open_text_file(self, path, encoding='utf-8-sig'):
-- 
2.43.0


From d0668809b88dac9ddabf3c0b1116faca34daf533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 37/45] fix: record payload file names of a read-only bag, so
 that validation reports unexpected files

---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index d3766ec..5fccbf6 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -289,7 +289,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            path = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(path)] = path
+            yield path
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From e4a6856539cf9460619f0f9b20aa356250f90f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 38/45] fix: report an unreadable file of a read-only bag as a
 validation failure

---
 multibag/access/bagit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 5fccbf6..9d89546 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -6,7 +6,7 @@ etc.).
 from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
-import fs.osfs, fs.zipfs, fs.tarfs
+import fs.osfs, fs.zipfs, fs.tarfs, fs.errors
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -595,7 +595,7 @@ def _calculate_file_hashes(full_path, f_hashers):
                     break
                 for i in f_hashers.values():
                     i.update(block)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, fs.errors.FSError) as e:
         raise BagValidationError(_("Could not read %(filename)s: %(error)s") % {
             'filename': full_path,
             'error': _unicode(e),
-- 
2.43.0


From 0cceae0637de875b7ddb67a328bb2750ba6e37f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:27 +0000
Subject: [PATCH 39/45] fix: open a serialized source bag for splitting as such

---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 81be868..a1a6e38 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From 11e19b5931b69957ccd9ee3d549c26e76cbe6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:30 +0000
Subject: [PATCH 40/45] fix: name split bags after the source bag when its path
 ends in a slash

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index a1a6e38..72232f5 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -469,7 +469,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath))[0]
+            namebasis = os.path.splitext(os.path.basename(bagpath.rstrip('/')))[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From c2eee975f2bded221727c3d5771941f19fa33a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:33 +0000
Subject: [PATCH 41/45] fix: validating a head bag without a data directory
 reports it instead of raising

---
 multibag/validate/headbag.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 706442f..0efd9f2 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -537,8 +537,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        files = []
+        if self.bag.isdir("data"):
+            files = self.bag._root.subfspath("data").fs.walk.files()
+        for df in files:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -623,8 +625,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        files = []
+        if self.bag.isdir("data"):
+            files = self.bag._root.subfspath("data").fs.walk.files()
+        for df in files:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
-- 
2.43.0


From 59d72b7bcbf02c4a02549555d950dbec6eee5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:48 +0000
Subject: [PATCH 42/45] fix: replicate() put a file inside a directory of the
 same name instead of failing

---
 multibag/access/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 09654fc..3fde8e5 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -361,6 +361,9 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             # replace the file rather than writing into it: it may be a hard
             # link to a file of another bag
             os.remove(destpath)
+        elif os.path.isdir(destpath):
+            # don't let the copy below put the file inside of the directory
+            raise OSError(21, "Is a directory: "+destpath, destpath)
 
         if hardlink:
             try:
-- 
2.43.0


From a2cd8f65b110b79a0a1e457f5dbaafdbc755c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:55 +0000
Subject: [PATCH 43/45] fix: a bag given as '.' or '..' goes by the name of its
 directory

---
 multibag/access/bagit.py    | 14 ++++++++++++--
 multibag/access/extended.py |  2 +-
 multibag/split.py           |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 9d89546..f6c8f95 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -154,7 +154,7 @@ class ReadOnlyBag(_bagit.Bag):
         if not bagpath:
             raise BagError(_("path to bag root directory not provided"))
         if not isinstance(bagpath, Path):
-            bagpath = bagpath.rstrip("/")
+            bagpath = _named_path(bagpath)
             parent = os.path.dirname(bagpath) or "."
             bagname = os.path.basename(bagpath)
             if not location:
@@ -613,6 +613,16 @@ _ext_fs_lookup = {
     ".tgz":      fs.tarfs.TarFS
 }
 
+def _named_path(bagdir):
+    """
+    return the given path to a bag's root directory in a form that ends with the 
+    name of that directory
+    """
+    bagdir = bagdir.rstrip("/") or "/"
+    if os.path.basename(bagdir) in [os.curdir, os.pardir]:
+        bagdir = os.path.abspath(bagdir)
+    return bagdir
+
 def open_bag(location):
     """
     A factory function for opening a bag; it returns
@@ -637,7 +647,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
-        location = location.rstrip("/") or "/"
+        location = _named_path(location)
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 3fde8e5..52dd65a 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -227,7 +227,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             kw = self._ctor_bind_args(args, kw)
             
             self._bagdir = kw['bagdir'].rstrip(os.sep)
-            self._bagname = os.path.basename(self._bagdir)
+            self._bagname = os.path.basename(os.path.abspath(self._bagdir))
             self._replwhl = True
             super(_ExtendedReadWritableMixin, self).__init__()
 
diff --git a/multibag/split.py b/multibag/split.py
index 72232f5..1a9229b 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -469,7 +469,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath.rstrip('/')))[0]
+            namebasis = os.path.splitext(os.path.basename(os.path.abspath(bagpath)))[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From a7bb3cd1eb55e76c2482bf374b69f9d9f1c51684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 44/45] fix: walk() of a read-only bag reports clean paths when
 the start has extra slashes

---
 multibag/access/extended.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 52dd65a..23752c1 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -693,6 +693,7 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             start = ''
         if start.startswith('/'):
             raise ValueError("walk(): start must not be absolute: "+start)
+        start = re.sub(r'/+', '/', start).rstrip('/')
         if not start:
             root = self._root
         else:
-- 
2.43.0


From 4fac8098895b04a1aa6a640807def0d22c88fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 45/45] fix: files in the root directory of a bag are
 registered without a leading slash

---
 multibag/access/multibag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index bd566a6..64a995b 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -604,7 +604,8 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                             subdirs.pop(0)
                         continue
                     for f in files:
-                        f = "/".join([d, f])
+                        if d:
+                            f = "/".join([d, f])
                         if f in exclude:
                             continue
                         self.add_file_lookup(f, member_name)
-- 
2.43.0

