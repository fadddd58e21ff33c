From a7a6daa8822a7a7da1367476e66822c77798c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 01/66] fix: allow a path to be pushed again within one commit

---
 bversion/storage/server_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..d626755 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -240,7 +240,7 @@ class server_db:
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
         # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 2a385690b98c5edf10bb6155bd988332bc6a033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 02/66] fix: deleting files must not stop at an unknown path
 nor keep earlier uploads

---
 bversion/storage/server_db.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d626755..d8273fa 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -254,19 +254,18 @@ class server_db:
         for it in files:
             file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
+            # Anything uploaded for this path earlier in the commit is superseded
+            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
+            # We don't need to do anything else if the file doesnt exist
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+            if the_file == []: continue
             file_info = the_file[0]
 
             # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
-
-            if already_deleted == []:
-                file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                                (file_info['hash'], file_info['path'], file_info['status']))
+            file_info['status'] = 'deleted'
+            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                             (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
 
-- 
2.43.0


From 4aeac5e54e13a2cc14e857c73309555285cea064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 03/66] fix: deletions made before a commit was interrupted
 must not leak into the resumed commit

---
 bversion/storage/server_db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d8273fa..f3613b5 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -220,6 +220,10 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # The client only gets told about the uploads which we hold, so it will
+        # delete again what it still wants to delete
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From 69505964deea62b2a287282d802da6f735fe9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 04/66] fix: a malformed deletion list must not leave a
 database transaction open

---
 bversion/storage/server_db.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f3613b5..f203703 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -255,23 +255,23 @@ class server_db:
     #===============================================================================
     def remove_from_commit(self, files):
 
-        for it in files:
-            file_path = it['path']
-
-            # Anything uploaded for this path earlier in the commit is superseded
-            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
-
-            # We don't need to do anything else if the file doesnt exist
-            the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: continue
-            file_info = the_file[0]
-
-            # Update commit changes
-            file_info['status'] = 'deleted'
-            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                             (file_info['hash'], file_info['path'], file_info['status']))
-
-        self.con.commit()
+        # All or nothing, a malformed entry must not leave a transaction open
+        with self.con:
+            for it in files:
+                file_path = it['path']
+
+                # Anything uploaded for this path earlier in the commit is superseded
+                self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
+                # We don't need to do anything else if the file doesnt exist
+                the_file = self.file_exists_in_commit(file_path)
+                if the_file == []: continue
+                file_info = the_file[0]
+
+                # Update commit changes
+                file_info['status'] = 'deleted'
+                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                                 (file_info['hash'], file_info['path'], file_info['status']))
 
     #===============================================================================
     def get_active_commit_changes(self):
-- 
2.43.0


From 8b8b6e3a725f24806ce3e013287a9386b528794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 05/66] fix: keep the commit state when a connection also uses
 another repository

---
 bversion/storage/server_db.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f203703..e95135c 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -13,19 +13,16 @@ def get_server_db_instance_for_thread(db_file_path, need_to_recreate = False, pa
     if path_override is not None:
         db_file_path = path_override
 
-    old_db_path = getattr(threadLocal, 'old_db_path', '')
-    if old_db_path != db_file_path:
-        need_to_recreate = True
+    # A connection may use several repositories, the state of a commit
+    # in one of them must survive requests to another
+    db_instances = getattr(threadLocal, 'db_instances', None)
+    if db_instances is None:
+        db_instances = threadLocal.db_instances = {}
 
-    db_instance = getattr(threadLocal, 'db_instance', None)
-    if db_instance is None:
-        need_to_recreate = True
+    if need_to_recreate or db_file_path not in db_instances:
+        db_instances[db_file_path] = server_db(db_file_path, path_override = path_override)
 
-    if need_to_recreate:
-        threadLocal.db_instance = server_db(db_file_path, path_override = path_override)
-        threadLocal.old_db_path = db_file_path
-
-    return threadLocal.db_instance
+    return db_instances[db_file_path]
 
 
 #=====================================================
-- 
2.43.0


From d8d794cdca762d504e7882e8a6a1ae15cae51144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 06/66] fix: holding the lock of one repository must not allow
 changes to another

---
 bversion/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..d3977d3 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -406,9 +406,10 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        # The lock only covers this repository
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock == repository:
                 data_store.unlock()
                 context.lock = False
 
@@ -461,7 +462,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -505,7 +506,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -541,7 +542,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From 9b7077d0cc00270ac913a381e2c8b514f073cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 07/66] fix: a commit belongs to the authenticated user, not to
 the user named in the request

---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index d3977d3..fd8d023 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -430,17 +430,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From b7f7c14458d22a64967a6b79ddac8fb244a89eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 08/66] fix: release the lock when a commit is refused as out
 of date

---
 bversion/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/server.py b/bversion/server.py
index fd8d023..75733a6 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -421,6 +421,7 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # handled by the client, and a server interface for this is not needed.
     if data_store.get_head() != request.headers["previous_revision"]:
         if data_store.get_active_commit() is not None: data_store.rollback()
+        context.shutdown_handler() # nothing was begun, so let others commit
         return fail(need_to_update_msg)
 
     # if the last active commit was by the same user and ip, get the partial committed files
-- 
2.43.0


From 8223d181884d5b914ba47ee1f180374446ef558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 09/66] fix: rollback must recognise a completed commit which
 was resumed before

---
 bversion/storage/versioned_storage.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..8463437 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -306,6 +306,16 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_completed(self) -> bool:
+        """ Did the active commit become the head, without its working state being cleaned up after it? """
+
+        # an interrupted and resumed commit may have logged more than one commit object
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        head = self.get_head()
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,8 +326,7 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            if self.active_commit_completed():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From cf2190ddbc2d1f2ffe449319872648bde96a9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 10/66] fix: a commit which completed before a crash must not
 be resumed

---
 bversion/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index 75733a6..de0acf2 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -428,6 +428,11 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # and send them back to allow resume, otherwise do rollback if needed.
     active_commit = data_store.get_active_commit()
 
+    # If the last active commit did complete but was not cleaned up after, there is nothing left to resume
+    if active_commit is not None and data_store.active_commit_completed():
+        data_store.rollback()
+        active_commit = None
+
     commit_files = {}
 
     if active_commit is not None:
-- 
2.43.0


From 6ef7fe2a1c5065ce90efb9682a2b6d12ee2b0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 11/66] fix: an interrupted rollback must not leave uploads
 whose objects are gone

---
 bversion/storage/server_db.py         | 6 ++++++
 bversion/storage/versioned_storage.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index e95135c..2bd97e3 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -292,6 +292,12 @@ class server_db:
         return current_changes, self.active_files
 
 
+    #===============================================================================
+    def clean_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
+
     #===============================================================================
     def clean_commit_state(self):
         self.active_files = None
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8463437..a9e2d22 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -330,6 +330,10 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # Forget the uploads before removing them, so that if we get interrupted
+                # a resumed commit cannot refer to objects which are already gone
+                sdb.clean_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From 7818c3d77dd7d947717f7e59b63e1d052454a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 12/66] fix: session tokens are stored as bytes, allow a
 session to be validated

---
 bversion/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index de0acf2..84828c0 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -135,7 +135,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
     if 'session_token' in request.headers:
         session_token = request.headers['session_token']
 
-        if sdb.validate_session(session_token, client_ip) != []:
+        if sdb.validate_session(session_token.encode('utf8'), client_ip) != []:
             return success({
                 'server_version' : str(version_numbers.server_version).encode('utf8'),
                 'session_token'  : session_token
-- 
2.43.0


From d888a354533d754569d3323eb05954a7a10bd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 13/66] fix: validating a session must not expire the session
 of a running commit

---
 bversion/storage/server_db.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 2bd97e3..927bb4f 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -176,12 +176,10 @@ class server_db:
 
 
     #===============================================================================
-    def validate_session(self, session_token : str, client_ip : str):
-        self.con.execute("delete from session_tokens where expires < ?", (time.time(),))
-        self.con.commit()
-
-        res = self.con.execute("select * from session_tokens where token = ? and ip = ?", (session_token, client_ip)).fetchall()
-        return res
+    def validate_session(self, session_token : bytes, client_ip : str):
+        # Expired tokens are not collected here, the client which is currently doing a commit may own one
+        return self.con.execute("select * from session_tokens where token = ? and ip = ? and expires >= ?",
+                                (session_token, client_ip, time.time())).fetchall()
 
 
 #===============================================================================
-- 
2.43.0


From 068d9a3e3dd503575ebc8eea5e029308f54901d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 14/66] fix: garbage collection must remove unreachable
 objects, from where they are stored

---
 bversion/storage/versioned_storage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index a9e2d22..739fffe 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -616,8 +616,8 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
 
         #================================================================
         # Delete garbage objects
@@ -627,7 +627,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
         self.unlock()
-- 
2.43.0


From 22223455f5155f384678cdcd24d0e53d87dd17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 15/66] fix: garbage collection must keep the uploads of a
 commit which can be resumed

---
 bversion/storage/versioned_storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 739fffe..b08e40d 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -615,6 +615,12 @@ class versioned_storage:
         file_objects_that_should_exist =   set(reachable_objects['files'].keys())
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
+        # uploads of an interrupted commit are still needed, as it may get resumed
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        sdb.db_init()
+        for change in sdb.get_active_commit_changes():
+            file_objects_that_should_exist.add(change['hash'])
+
         # ===============
         garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
         garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
-- 
2.43.0


From a5f35d2c555bf9e83f16cf65d4cfab440a4feb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 16/66] fix: garbage collection must return its result and
 always release the lock

---
 bversion/storage/versioned_storage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index b08e40d..55eca3c 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -581,6 +581,14 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:
+            return self.collect_garbage_objects()
+        finally:
+            self.unlock()
+
+
+#===============================================================================
+    def collect_garbage_objects(self):
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -636,5 +644,4 @@ class versioned_storage:
             object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From 16dd1eacea49def781cce8693ed1dc38127affd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 17/66] fix: verification of a damaged version chain must end

---
 bversion/storage/versioned_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 55eca3c..4ae2170 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -452,6 +452,7 @@ class versioned_storage:
         # walk up the commit change to the first version
         pointer = head
         while True:
+            if pointer in reachable_objects['commits']: raise Exception("Cycle detected")
             commit = self.read_commit_index_object(pointer)
             reachable_objects['commits'][pointer] = commit
             pointer = commit['parent']
-- 
2.43.0


From 8dae77d25a8f1427d6e1ccf1430af4c462c0bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 18/66] fix: rolling back must not undo moves which did not
 happen, nor restore partial copies

---
 bversion/storage/journaling_filesystem.py | 36 +++++++++++++++--------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..02f8e33 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -77,11 +77,24 @@ class journaling_filesystem:
         d = command['do']
         if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
+        elif d[cmd] == 'move_back':
+            # If the original still exists the move being undone did not happen
+            if not os.path.lexists(d[dst]): shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
             if callable(d[data]): d[data](d[path])
             else: file_put_contents(d[path], d[data])
 
+############################################################################################
+    def copy_to_tmp(self, path: str, tmp_path: str):
+        """ Copy a file which is about to be overwritten. The copy must be complete before
+        the journal refers to it, otherwise rollback may restore a partial or an old copy. """
+
+        shutil.copy(path, tmp_path)
+
+        self.client_db.write_fs_journal(['move', tmp_path, path])
+        self.client_db.commit()
+
 ############################################################################################
     def rollback(self):
         """ Do journal rollback """
@@ -138,9 +151,7 @@ class journaling_filesystem:
         # if file exists, create a temp copy to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
-            self.do_action({
-                'do'   : ['copy', path, tmp_path],
-                'undo' : ['move', tmp_path, path]})
+            self.copy_to_tmp(path, tmp_path)
 
         self.do_action(
             {'do'   : ['write', path, data],
@@ -152,18 +163,17 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        if not os.path.isfile(src):
+            raise OSError(errno.ENOENT, 'No such file or directory', src)
+
+        # if destination file exists, copy it to tmp first
+        if os.path.isfile(dst):
+            tmp_path = self.new_tmp()
+            self.copy_to_tmp(dst, tmp_path)
 
         self.do_action(
             {'do'   : ['move', src, dst],
-             'undo' : ['move', dst, src]})
+             'undo' : ['move_back', dst, src]})
 
 ############################################################################################
     def delete_file(self, path: str):
@@ -176,7 +186,7 @@ class journaling_filesystem:
             tmp_path = self.new_tmp()
             self.do_action({
                 'do'   : ['move', path, tmp_path],
-                'undo' : ['move', tmp_path, path]})
+                'undo' : ['move_back', tmp_path, path]})
 
         else:
             raise OSError(errno.ENOENT, 'No such file or directory', path)
-- 
2.43.0


From fc7afca0720c2cb879b60b3ec40a1af23c82bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 19/66] fix: files restored by rollback must keep their
 modification time

---
 bversion/storage/journaling_filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 02f8e33..4b22141 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -90,7 +90,7 @@ class journaling_filesystem:
         """ Copy a file which is about to be overwritten. The copy must be complete before
         the journal refers to it, otherwise rollback may restore a partial or an old copy. """
 
-        shutil.copy(path, tmp_path)
+        shutil.copy2(path, tmp_path) # keeps the modification time, or it would look changed when restored
 
         self.client_db.write_fs_journal(['move', tmp_path, path])
         self.client_db.commit()
-- 
2.43.0


From 8df696f8d36b09696a46810256973f1b534a741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 20/66] fix: naming a backup must not make rollback fail

---
 bversion/storage/journaling_filesystem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 4b22141..f352dab 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -42,8 +42,13 @@ class journaling_filesystem:
 
         backup_id_file = p.join(self.backup_dir, '.bk_idx')
 
-        backup_num = int(file_or_default(backup_id_file, b'1'))
+        # the id is lost if we got interrupted while writing it
+        try: backup_num = int(file_or_default(backup_id_file, b'1'))
+        except ValueError: backup_num = 1
+
+        # file names are limited to 255 bytes
         backup_name = str(backup_num) + "_" + os.path.basename(src)
+        backup_name = os.fsdecode(os.fsencode(backup_name)[:255])
         backup_num += 1
 
         file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
-- 
2.43.0


From 4b13b1b114bbe787c370e6d97ea806b37a913750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 21/66] fix: a directory must not be moved away by writing or
 moving a file onto it

---
 bversion/storage/journaling_filesystem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index f352dab..43ef233 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -153,6 +153,9 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
+        if os.path.isdir(path):
+            raise OSError(errno.EISDIR, 'Is a directory', path)
+
         # if file exists, create a temp copy to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
@@ -171,6 +174,9 @@ class journaling_filesystem:
         if not os.path.isfile(src):
             raise OSError(errno.ENOENT, 'No such file or directory', src)
 
+        if os.path.isdir(dst):
+            raise OSError(errno.EISDIR, 'Is a directory', dst)
+
         # if destination file exists, copy it to tmp first
         if os.path.isfile(dst):
             tmp_path = self.new_tmp()
-- 
2.43.0


From 1fbb0d58f3597b9edbad000d68ce9b66b20881f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 22/66] fix: a transaction which fails must not leave its
 manifest changes behind

---
 bversion/storage/client_db.py             | 4 ++++
 bversion/storage/journaling_filesystem.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 43ef233..a40e22d 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -104,6 +104,9 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Forget changes to the manifest that were part of the transaction
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
@@ -132,9 +135,10 @@ class journaling_filesystem:
         self.client_db.clear_fs_journal()
         self.client_db.commit()
 
-        # Clear out the tmp files as they are no longer needed
+        # Clear out the tmp files as they are no longer needed. The transaction is
+        # complete by now, failing to remove them must not make it look failed.
         for itm in os.listdir(self.tmp_dir):
-            os.remove(cpjoin(self.tmp_dir, itm))
+            ignore(os.remove, cpjoin(self.tmp_dir, itm))
 
         # ------------------
         self.active_transaction = False
-- 
2.43.0


From 18bc218ce4996992aef7cb695bb7e865d6406068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 23/66] fix: recover interrupted file operations when opening a
 working copy

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..f00fa40 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -93,6 +93,10 @@ def init(unlocked = False):
 
     cdb = client_db(cpjoin(config['data_dir'], '.bvn', 'manifest.db'))
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
+
+    # If the last command was interrupted during a file operation, put things right before anything looks at the files
+    if cdb.get_fs_journal() != []: journaling_fs.rollback()
+
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
     if server_connection is None:
-- 
2.43.0


From ac4ee91aa02ca7407059639b057d3a116f06cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 24/66] fix: a private key encrypted under a password must be
 decrypted

---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..cccffd8 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 83cfc28d65c863ab0af965fe105c1f4d08740193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 25/66] fix: merging of nested configuration on current python

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..6b39d2a 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 27aab73e09353e9d3e000272e95bb43a41db97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 26/66] fix: the answer of the user must be recognised in any
 case

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 6b39d2a..5dec5aa 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -43,8 +43,8 @@ def question_user(prompt_text: str, valid_choices) -> str:
     choice = None
     while True:
         print(prompt_text)
-        choice = input('> ')
-        if choice.lower() in valid_choices: break
+        choice = input('> ').lower()
+        if choice in valid_choices: break
 
     return choice
 
-- 
2.43.0


From 21bd21924f599ffbd57b9c039591f329df809ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 27/66] fix: keep hold of the lock on the working copy

---
 bversion/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index f00fa40..9b4725d 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -39,12 +39,13 @@ data_store:        client_filesystem_interface = None
 server_connection: client_http_request         = None
 
 working_copy_base_path: str                    = ''
+lock_file                                      = None
 relative_cwd: str                              = ''
 
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd, lock_file
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -64,10 +65,13 @@ def init(unlocked = False):
     except IOError:    raise SystemExit('No BVersion configuration found')
     except ValueError: raise SystemExit('Configuration file syntax error')
 
-    # Lock for sanity check, only one client can use the working copy at any time
+    # Lock for sanity check, only one client can use the working copy at any time. The lock is lost when
+    # the file gets closed, so we need to keep hold of it. If we already hold one, let it go first.
+    lock_file = None
+
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        lock_file = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-- 
2.43.0


From f613d0be8ac4aa628e3981c938cb387565d7a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 28/66] fix: conflict resolution of paths containing a colon or
 ending in white space

---
 bversion/client.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 9b4725d..b043850 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -382,13 +382,17 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
-            res_sect  = chunk[2].split(':')
+            if len(chunk) < 3:
+                raise SystemExit('Corrupted resolution file')
+
+            # The path itself may contain the seperator
+            path_sect = chunk[0].split(':', 1)
+            res_sect  = chunk[2].split(':', 1)
 
-            if 'Path' not in path_sect[0]:
+            if 'Path' not in path_sect[0] or len(path_sect) != 2:
                 raise SystemExit('Corrupted resolution file')
 
-            if 'Resolution' not in res_sect[0]:
+            if 'Resolution' not in res_sect[0] or len(res_sect) != 2:
                 raise SystemExit('Corrupted resolution file')
 
             resolution = res_sect[1].strip().lower()
@@ -397,7 +401,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 raise SystemExit('specified resolution must be either "client" or "server"')
 
             resolutions.append({
-                'path' : path_sect[1].strip(),
+                'path' : path_sect[1].lstrip(' '), # may end with white space
                 'resolution' : resolution
             })
 
-- 
2.43.0


From 10a7c73e3368fb885c8d4daa2a0c61d0ee01e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 29/66] fix: checkout must create the working copy, for the
 user given

---
 bversion/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index b043850..a0e54e1 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -325,7 +325,7 @@ def checkout(args):
     #---------------
     config = {"server_domain" : server_domain,
                 "repository"    : repository_name[0],
-                "user"          : "test",
+                "user"          : user,
                 "private_key"   : private_key}
 
     # Validate info is correct by attempting to authenticate
@@ -335,13 +335,13 @@ def checkout(args):
     config["private_key"] = private_key
 
     # create repo dir
-    try: os.makedirs(repository_name)
-    except: raise SystemExit('Directory already exists')
-    os.makedirs(cpjoin(repository_name, '.bvn'))
-    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4))
+    try: os.makedirs(repository_name[0])
+    except OSError: raise SystemExit('Directory already exists')
+    os.makedirs(cpjoin(repository_name[0], '.bvn'))
+    file_put_contents(cpjoin(repository_name[0], '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))
 
     config["private_key"] = unlocked_key
-    os.chdir(repository_name); init(True)
+    os.chdir(repository_name[0]); init(True)
     update(session_token)
 
 
-- 
2.43.0


From ce0e1a7e914582f4719d6f2fbd5a2667d58cd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 30/66] fix: an update must delete files before it pulls new
 ones

---
 bversion/client.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index a0e54e1..d71a342 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -605,6 +605,28 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         'errors'        : []
     }
 
+    # Files which have been deleted on server and need deleting on client. This has to be done first,
+    # as a file may have been replaced with a directory having the same name or vice versa.
+    if changes['to_delete_on_client'] != []:
+        print('Removing files deleted on the server...')
+
+        for fle in changes['to_delete_on_client']:
+            print(colored('Deleting file: ' + fle['path'], 'red'))
+
+            try:
+                data_store.fs_delete(fle['path'])
+            except OSError:
+                # If this happens, a file was deleted on the server which
+                # never existed on this client, thus do nothing.
+                pass
+
+            affected_files['deleted_files'].append(fle['path'])
+
+            # Delete the folder if it is now empty
+            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
+            except OSError as e:
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
@@ -654,28 +676,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
-    # Files which have been deleted on server and need deleting on client
-    if changes['to_delete_on_client'] != []:
-        print('Removing files deleted on the server...')
-
-        for fle in changes['to_delete_on_client']:
-            print(colored('Deleting file: ' + fle['path'], 'red'))
-
-            try:
-                data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
-
-            affected_files['deleted_files'].append(fle['path'])
-
-            # Delete the folder if it is now empty
-            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
-            except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
-
-
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
-- 
2.43.0


From 79693207f01141e6937faa4609f05d9822dee8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 31/66] fix: the servers version must be pulled when the user
 asks for it

---
 bversion/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index d71a342..3847085 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -644,9 +644,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             file_in_manifest = cdb.get_single_file_from_manifest(fle['path'])
             file_hash = fle['hash']
 
-            # Chech we don't already have the file due to a previous run that failed mid-process
+            # Chech we don't already have the file due to a previous run that failed mid-process. If it has been
+            # changed or deleted locally the user chose the servers version, what the manifest says does not matter.
+            local_status = client_changes[fle['path']]['status'] if fle['path'] in client_changes else 'unchanged'
+
             have_file = False
-            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
+            if (local_status == 'unchanged' and file_in_manifest is not None
+                and file_in_manifest['server_file_hash'] == file_hash):
                 have_file = True
 
             # ===================
-- 
2.43.0


From 2807102881749d3d6d6d592bacb27bb33d254637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 32/66] fix: an update which failed to pull a file must not
 record the revision as complete

---
 bversion/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3847085..a8d41d4 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -680,6 +680,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
+    # If anything failed we do not have this revision
+    if affected_files['errors'] != []:
+        for item in affected_files['errors']:
+            print(item)
+
+        raise SystemExit('The update is not complete, please run update again')
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
@@ -690,10 +697,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     ignore(os.remove, config['conflict_resolution_file'])
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
-    # ============================================
-    for item in affected_files['errors']:
-        print(item)
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From abdfb28c1aed0c276155a67114b3f28f467a4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 33/66] fix: a file deleted on both sides must not remain in
 the manifest

---
 bversion/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index a8d41d4..1516cc2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -616,9 +616,11 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             try:
                 data_store.fs_delete(fle['path'])
             except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+                # If this happens, a file was deleted on the server which never existed on
+                # this client, or was deleted here as well, thus there is nothing to delete.
+                if not os.path.lexists(data_store.jfs.get_full_file_path(fle['path'])):
+                    cdb.remove_file_from_manifest(fle['path'])
+                    cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
-- 
2.43.0


From 3160a1ff7e0d307403ab2c5a1f8cd2dba51d25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 34/66] fix: empty directories must not get in the way of an
 update

---
 bversion/client.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 1516cc2..b080bd8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -345,6 +345,15 @@ def checkout(args):
     update(session_token)
 
 
+#===============================================================================
+def remove_empty_dirs(path: str) -> None:
+    """ Remove any directories without files at and below path, in order to put a file in their place """
+
+    for directory, _, _ in os.walk(path, topdown = False):
+        try: os.rmdir(directory)
+        except OSError as e:
+            if e.errno != errno.ENOTEMPTY: raise
+
 #===============================================================================
 def resolve_update_conflicts(session_token: str, changes: list, version_id: str, testing: bool, test_overrides: dict):
 
@@ -670,6 +679,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
                 else:
                     make_dirs_if_dont_exist(data_store.jfs.get_full_file_path(cpjoin(*fle['path'].split('/')[:-1]) + '/'))
+                    remove_empty_dirs(data_store.jfs.get_full_file_path(fle['path']))
 
                     print(colored('Pulling file: ' + fle['path'], 'green'))
                     data_store.fs_put(fle['path'], req_result, additional_manifest_data = {'server_file_hash' : file_hash})
-- 
2.43.0


From c26b990d6a4949d93dbc0448d9750158055f6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 35/66] fix: files edited during a commit must show up as
 changed after it

---
 bversion/client.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index b080bd8..9280f30 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -771,15 +771,18 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
             if not os.path.isfile(local_path):
                 changes['to_delete_on_server'].append(fle)
 
-            elif fle['hash'] == hash_file(local_path):
-                filtered_previous[fle['path']] = fle
+            else:
+                local_info = get_single_file_info(local_path, fle['path']) # before reading it, see below
+
+                if fle['hash'] == hash_file(local_path):
+                    filtered_previous[fle['path']] = {'file_info' : fle, 'local_info' : local_info}
 
     previous_uploads = filtered_previous
 
 
     #======================
     errors: List[str] = []
-    changes_made: List[Dict[str, str]] = []
+    changes_made: List[dict] = []
 
     # Files which have been deleted on the client and need deleting on server
     if changes['to_delete_on_server'] != []:
@@ -806,15 +809,20 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
             if fle['path'] in previous_uploads:
 
                 changes_made.append({
-                    'status'    : 'new/changed',
-                    'path'      : fle['path'],
-                    'file_info' : previous_uploads[fle['path']]
+                    'status'     : 'new/changed',
+                    'path'       : fle['path'],
+                    'file_info'  : previous_uploads[fle['path']]['file_info'],
+                    'local_info' : previous_uploads[fle['path']]['local_info']
                 })
 
                 continue
 
             print(colored('Sending: ' + fle['path'], 'green'))
 
+            # Get the modification time before reading the file. If the file is
+            # edited after this, it has to show up as changed after the commit.
+            local_info = get_single_file_info(cpjoin(config['data_dir'], fle['path']), fle['path'])
+
             headers = server_connection.send_file("push_file", {
                 'session_token' : session_token,
                 'repository'    : config['repository'],
@@ -823,9 +831,10 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
             if headers['status'] == 'ok':
                 changes_made.append({
-                    'status'    : 'new/changed',
-                    'path'      : fle['path'],
-                    'file_info' : json.loads(headers['file_info_json'])
+                    'status'     : 'new/changed',
+                    'path'       : fle['path'],
+                    'file_info'  : json.loads(headers['file_info_json']),
+                    'local_info' : local_info
                 })
             else:
                 print(headers)
@@ -873,7 +882,7 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                file_info = change['local_info']
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From 4b2214ce45899744a01cec987d3cb4e29bff7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 36/66] fix: a resumed commit must not retain an upload which
 differs from the working copy

---
 bversion/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 9280f30..074319a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -777,6 +777,11 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 if fle['hash'] == hash_file(local_path):
                     filtered_previous[fle['path']] = {'file_info' : fle, 'local_info' : local_info}
 
+                # The file may be unchanged since the last update but differ from what was
+                # uploaded, in this case what was uploaded needs to be replaced as well.
+                elif fle['path'] not in client_changes:
+                    changes['client_push_files'].append(local_info)
+
     previous_uploads = filtered_previous
 
 
-- 
2.43.0


From aa8df8247797be6c4e6a04b117a1bd48eb019923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 37/66] fix: a resumed commit must not contain files ignored by
 the working copy

---
 bversion/client.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 074319a..1f136ab 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -281,6 +281,11 @@ def authenticate(previous_token: str = None) -> str:
     raise SystemExit('Authentication failed')
 
 
+#===============================================================================
+def is_ignored(path: str) -> bool:
+    return next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(path, flter)), False)
+
+
 #===============================================================================
 def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str, manifestFileDetails]]:
     """ Find things that have changed since the last run, applying ignore filters """
@@ -747,20 +752,35 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
 
+    def begin_commit():
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        return json.loads(body)['partial_commit']
+
+    previous_uploads = begin_commit()
+
+    # A partial commit may contain files which are ignored here, made before the filters were changed
+    # or from another working copy. We cannot tell what they should be, so it needs to be started over.
+    if any(is_ignored(fle['path']) for fle in previous_uploads):
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})[1] # Only care about headers
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
+        previous_uploads = begin_commit()
 
     # If we are resuming a partial commit, handle the previously uploaded files
     # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
 
     filtered_previous = {}
     if len(previous_uploads) != 0:
-- 
2.43.0


From d8a7620c5b8bb115aeca1d99e45218eba61d9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 38/66] fix: pull-ignore of nested or already deleted files

---
 bversion/client.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 1f136ab..411c203 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1112,29 +1112,16 @@ def pull_ignore(filters, require_commit_changes):
 
         if choice == 'delete':
 
-            affected_dirs = {}
-
             for path in affected_local_files:
                 full_path = cpjoin(working_copy_base_path, path)
                 print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
-
-                affected_dirs[os.path.dirname(full_path)] = None
 
-            # Walk up the directory tree and remove any dirs that are now empty
-            for affected_path in affected_dirs:
-                split_path = affected_path.split('/')
+                # May have been deleted locally already
+                try: os.remove(full_path)
+                except (FileNotFoundError, NotADirectoryError, IsADirectoryError): continue
 
-                while True:
-                    walking_path = '/' + cpjoin(*split_path)
-                    contents = os.listdir(walking_path)
-
-                    if len(contents) == 0:
-                        print(colored('Deleting empty directory: ' + walking_path, 'red'))
-                        os.rmdir(walking_path)
-                        split_path.pop()
-                    else:
-                        break
+                # Walk up the directory tree and remove any dirs that are now empty
+                ignore(os.removedirs, os.path.dirname(full_path))
 
         elif choice == 'nothing':
             # We do not need to do anything in this case
-- 
2.43.0


From d8b1b81fea8558aee29897db39699432ce226b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 39/66] fix: pull ignoring a file must not delete it on the
 server

---
 bversion/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 411c203..1b14d6f 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -293,6 +293,11 @@ def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str
     old_state = cdb.get_manifest()
     current_state = get_file_list(config['data_dir'])
 
+    # Files which have been added to pull ignore are left alone on the server, they have not been deleted
+    old_state = {path : fle for path, fle in old_state.items() if not
+                 next((True for flter in config['pull_ignore_filters']
+                       if fnmatch.fnmatch(path, flter)), False)}
+
     #Apply ignore filters
     current_state = [fle for fle in current_state if not
                      next((True for flter in config['ignore_filters']
-- 
2.43.0


From f2e7a639363b6261d50b8f02dd26ac7b0bd60d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 40/66] fix: pull ignored files left in the working copy must
 not be deleted by an update

---
 bversion/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 1b14d6f..55ede99 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -630,6 +630,12 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         print('Removing files deleted on the server...')
 
         for fle in changes['to_delete_on_client']:
+            # Files which are pull ignored are not ours to delete
+            if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
+                continue
+
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             try:
-- 
2.43.0


From 5914acdf507eae25c4264cbe21cc0d689e360d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 41/66] fix: a full update must restore files which were pull
 ignored

---
 bversion/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 55ede99..b75fa92 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -654,6 +654,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             except OSError as e:
                 if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
 
+    # A file which was pull ignored may be out of date, even though it was not changed on either side since the last update
+    for fle in changes.get('no_op', []):
+        file_in_manifest = cdb.get_single_file_from_manifest(fle['path'])
+
+        if file_in_manifest is not None and file_in_manifest['server_file_hash'] != fle['hash']:
+            changes['client_pull_files'].append(fle)
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
-- 
2.43.0


From ebc11038227e5b09ea7b8f5ae5af7aeafbf895f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 42/66] fix: revert must skip pull ignored files, not
 everything else

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index b75fa92..a9481ca 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -983,7 +983,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
-- 
2.43.0


From 00992ce60f17d06a2663768b110d4a41e5122dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 43/66] fix: revert must delete only the files which are not in
 the revision

---
 bversion/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index a9481ca..f35088c 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1006,7 +1006,8 @@ def revert(session_token, args):
                 local_files.pop(fle['path'])
 
         for fle in local_files.values():
-            files_to_delete.append(fle['path'])
+            if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                files_to_delete.append(fle['path'])
 
     # ----------------
     else:
@@ -1023,7 +1024,7 @@ def revert(session_token, args):
             if matches_file:
                 files_to_revert.append(fle['path'])
 
-    if files_to_revert == []:
+    if files_to_revert == [] and files_to_delete == []:
         raise SystemExit('Could not find files in the specified revision')
 
 
@@ -1048,9 +1049,14 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
-    for file_path in files_to_revert:
+    for file_path in files_to_delete:
         print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+        full_path = cpjoin(working_copy_base_path, file_path)
+
+        # May have been deleted locally already
+        if os.path.isfile(full_path):
+            os.remove(full_path)
+            ignore(os.removedirs, os.path.dirname(full_path))
 
     # ===============================
     for file_path in files_to_revert:
-- 
2.43.0


From 307e21e17d616ebb5448a57630d685572df182de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 44/66] fix: revert must create missing directories

---
 bversion/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index f35088c..d6630b7 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1072,6 +1072,10 @@ def revert(session_token, args):
 
 
         if headers['status'] == 'ok':
+            full_path = cpjoin(working_copy_base_path, file_path)
+            make_dirs_if_dont_exist(os.path.dirname(full_path) + '/')
+            remove_empty_dirs(full_path)
+
             # If we are using the local revision, we need to add the file to the manifest,
             # otherwise just download it so it will appear as a changed file, and can be committed.
             if version_id == meta['have_revision']:
@@ -1081,7 +1085,7 @@ def revert(session_token, args):
             else:
                 tmp_path = cpjoin(working_copy_base_path, '.bvn', 'download_tmp')
                 req_result(tmp_path)
-                os.rename(tmp_path, cpjoin(working_copy_base_path, file_path))
+                os.rename(tmp_path, full_path)
         else:
             print('error with downloading ' + file_path)
 
-- 
2.43.0


From 81fe06e2ed0aa53db66cd431851f2baf2920807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 45/66] fix: a connection closed within the headers must end
 the request

---
 bversion/http/http_client.py | 4 +++-
 bversion/http/http_server.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..daea97d 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            received = self.s.recv(1024)
+            if received == b'': raise Exception('Socket closed')
+            data += received
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..bc92e7a 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    received = c.recv(1024)
+                    if received == b'': raise Exception('Socket closed')
+                    data += received
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
-- 
2.43.0


From 773b3f3d6f60ec72a338faf1131b88b07054197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 46/66] fix: http messages must be sent completely

---
 bversion/http/http_client.py | 2 +-
 bversion/http/http_server.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index daea97d..d6f0c08 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index bc92e7a..c31a8e1 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -98,7 +98,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -107,7 +107,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From dd6f6225439771fddf7b106bc410937e455d5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 47/66] fix: an unread responce body must not be taken for the
 next responce

---
 bversion/http/http_client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index d6f0c08..7f46b5c 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -7,6 +7,7 @@ from bversion.http.http_common import read_body, generate_headers, parse_http_re
 class HTTPClient:
     def __init__(self):
         self.s = None
+        self.body = None
 
     def connect(self, host: str, port: int, tls: bool = False):
         self.s = socket.socket(socket.AF_INET,socket.SOCK_STREAM)
@@ -18,6 +19,9 @@ class HTTPClient:
         self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
+        # If the body of the previous responce was not read, it would be taken for the responce to this request
+        if self.body is not None: self.body.dump()
+
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
         self.send(
             msg +
@@ -27,8 +31,8 @@ class HTTPClient:
 
     def read_responce(self):
         parsed_preamble, body_partial = self.read_headers()
-        body = read_body(self.s.recv, int(parsed_preamble['headers']['content-length']), body_partial)
-        return parsed_preamble, body
+        self.body = read_body(self.s.recv, int(parsed_preamble['headers']['content-length']), body_partial)
+        return parsed_preamble, self.body
 
     def read_headers(self):
         data = b""
-- 
2.43.0


From 0b06d6937ef7ee221ef2099109cf2fb3b1362e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 48/66] fix: a file which changes while it is being sent must
 not break the connection

---
 bversion/http/client_http_request.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/client_http_request.py b/bversion/http/client_http_request.py
index ab4cd9d..7654082 100644
--- a/bversion/http/client_http_request.py
+++ b/bversion/http/client_http_request.py
@@ -65,10 +65,13 @@ class client_http_request:
         conn = self.begin(url, size, headers, content_type = 'application/octet-stream')
 
         with open(file_path, 'rb') as f:
-            while True:
-                chunk = f.read(1000 * 1000)
-                if chunk == b'': break
+            remaining = size # The file may change while it is being sent
+
+            while remaining > 0:
+                chunk = f.read(min(1000 * 1000, remaining))
+                if chunk == b'': raise Exception('File became shorter while sending it: ' + file_path)
                 conn.send(chunk)
+                remaining -= len(chunk)
 
         parsed_preamble, body = conn.read_responce()
         return body.read_all(), parsed_preamble['headers']
-- 
2.43.0


From b28fbf3c1890d5357ace12afea3a097c2e02c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 49/66] fix: header values with line breaks or surrounding
 white space must arrive unaltered

---
 bversion/http/http_common.py | 22 ++++++++++++++++++++--
 bversion/http/http_server.py |  8 ++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..8861b40 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -1,6 +1,24 @@
+import urllib.parse
 from typing import List, Dict, Union
 from typing_extensions import TypedDict
 
+#=====================================================================
+# Header lines end at a line break, and white space surrounding values is not
+# significant. Values that would be altered by this are sent in an escaped form.
+escape_prefix: bytes = b'percent-encoded:'
+
+def escape_value(value: bytes) -> bytes:
+    if value != value.strip() or b'\r' in value or b'\n' in value or value.startswith(escape_prefix):
+        return escape_prefix + urllib.parse.quote_from_bytes(value).encode('utf8')
+
+    return value
+
+def unescape_value(value: bytes) -> bytes:
+    if value.startswith(escape_prefix):
+        return urllib.parse.unquote_to_bytes(value[len(escape_prefix):])
+
+    return value
+
 #=====================================================================
 def generate_headers(headers: Dict[str, str]) -> bytes:
     res: bytes = b''
@@ -8,7 +26,7 @@ def generate_headers(headers: Dict[str, str]) -> bytes:
         k2 = k.encode('utf8') if isinstance(k, str) else k
         v2 = v.encode('utf8') if isinstance(v, str) else v
 
-        res += k2 + b': ' + v2 + b'\r\n'
+        res += k2 + b': ' + escape_value(v2) + b'\r\n'
     return res
 
 #=====================================================================
@@ -16,7 +34,7 @@ def parse_headers(headers_raw: List[bytes]) -> Dict[str, str]:
     headers = {}
     for i in headers_raw:
         split_header = i.split(b':', 1)
-        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
+        headers[split_header[0].strip().decode('utf8').lower()] = unescape_value(split_header[1].strip()).decode('utf8')
 
     return headers
 
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index c31a8e1..4ea05f5 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -5,7 +5,7 @@ from io import BytesIO
 from typing import Union
 import _thread
 
-from bversion.http.http_common import read_body, parse_http_request_preamble
+from bversion.http.http_common import read_body, generate_headers, parse_http_request_preamble
 
 #=====================
 class ConnectionContext:
@@ -92,11 +92,7 @@ def HTTPServer(host, port, connection_handler):
 
                 responce_headers += b"Content-Length: " + bytes(str(responce_content_length), encoding='utf8') + b'\r\n'
 
-                for k, v in rsp.headers.items():
-                    if isinstance(k, str): k=k.encode('utf8')
-                    if isinstance(v, str): v=v.encode('utf8')
-                    responce_headers += k + b':' + v + b'\r\n'
-
+                responce_headers += generate_headers(rsp.headers)
                 responce_headers += b"\r\n"
                 c.sendall(responce_headers)
 
-- 
2.43.0


From 6088b1a0890a0347f5e1475c7348f121e32b0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 50/66] fix: file names consisting of white space

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 5dec5aa..9f48683 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,8 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
-- 
2.43.0


From b115d6ffaf485d7070277f58f21b475a2fee1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:19 +0000
Subject: [PATCH 51/66] fix: a file deleted on both sides and replaced by a
 directory must not remain in the manifest

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index d6630b7..cdf53a0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -643,7 +643,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             except OSError:
                 # If this happens, a file was deleted on the server which never existed on
                 # this client, or was deleted here as well, thus there is nothing to delete.
-                if not os.path.lexists(data_store.jfs.get_full_file_path(fle['path'])):
+                if not os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])):
                     cdb.remove_file_from_manifest(fle['path'])
                     cdb.commit()
 
-- 
2.43.0


From 277f5b4537fae1011b7448920e6a9e38aaa071b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 52/66] fix: server versions downloaded for comparison must not
 be mixed with earlier ones

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index cdf53a0..38d9fac 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -530,6 +530,9 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 resolution_file += 'Resolution: ' + '\n'
                 resolution_file += '\n'
 
+            # Files from an earlier attempt may be out of date or in the way
+            ignore(shutil.rmtree, config['conflict_comparison_file_root'])
+
             # Offer to download files that have been changed on the server in order to compare them
             server_versions = []
             for fle in changes['conflict_files']:
-- 
2.43.0


From e10aa86c02c381c7f12c82f4a752c77f13f81e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:28 +0000
Subject: [PATCH 53/66] fix: a conflict resolved to the client must remain a
 local change

---
 bversion/client.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 38d9fac..fe18421 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -617,6 +617,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         return
 
     # Files which are in conflict
+    conflict_files = changes['conflict_files']
     if changes['conflict_files'] != []:
         changes = resolve_update_conflicts(session_token, changes, result['head'], testing, test_overrides)
 
@@ -725,6 +726,20 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
         raise SystemExit('The update is not complete, please run update again')
 
+    # Where the user chose the clients version, it differs from the revision we now have. The manifest has to say
+    # so, or else putting back the file from before the update would pass unnoticed as 'unchanged'.
+    resolved_to_server = {fle['path'] for fle in changes['client_pull_files'] + changes['to_delete_on_client']}
+
+    for fle in conflict_files:
+        file_info = fle['file_info']
+
+        if file_info['path'] not in resolved_to_server:
+            if fle['server_status'] == 'Deleted':
+                cdb.remove_file_from_manifest(file_info['path'])
+            else:
+                cdb.add_file_to_manifest({'path' : file_info['path'], 'server_file_hash' : file_info['hash'],
+                                          'last_mod' : float('nan'), 'created' : float('nan')}) # equals no time
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
-- 
2.43.0


From 0bbf67f98c04940f8b21adfdbd4ea12e389b89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 54/66] fix: files left out by pull-ignore must not count as
 deleted once the filter is removed

---
 bversion/client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index fe18421..9b736d5 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -293,10 +293,18 @@ def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str
     old_state = cdb.get_manifest()
     current_state = get_file_list(config['data_dir'])
 
-    # Files which have been added to pull ignore are left alone on the server, they have not been deleted
-    old_state = {path : fle for path, fle in old_state.items() if not
-                 next((True for flter in config['pull_ignore_filters']
-                       if fnmatch.fnmatch(path, flter)), False)}
+    # Files which have been added to pull ignore are left alone on the server, they have not been deleted.
+    # If they are gone they need to be forgotten, or they would count as deleted once the filter is removed.
+    current_paths = {fle['path'] for fle in current_state}
+
+    for path in list(old_state):
+        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(path, flter)), False):
+            old_state.pop(path)
+
+            if path not in current_paths:
+                cdb.remove_file_from_manifest(path)
+
+    cdb.commit()
 
     #Apply ignore filters
     current_state = [fle for fle in current_state if not
-- 
2.43.0


From 033802745e835fce571f70e02d6ecaced316fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 55/66] fix: filters relative to a directory whose name
 contains wildcards

---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 9b736d5..c75bced 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1,5 +1,5 @@
 from pprint import pprint
-import os, sys, json, base64, fnmatch, shutil, fcntl, errno, urllib.parse
+import os, sys, json, base64, fnmatch, glob, shutil, fcntl, errno, urllib.parse
 
 from collections import defaultdict
 from typing import List, Dict, Tuple, Optional
@@ -197,7 +197,8 @@ def normalise_filters(filters):
     normalised_filters = []
     for flter in filters:
         if flter[0] != '*' and flter[0] != '/':
-            normalised = cpjoin(relative_cwd, flter)
+            # The name of the directory is not a pattern
+            normalised = cpjoin(glob.escape(relative_cwd), flter)
             if normalised[0] != '/':
                 normalised = '/' + normalised
 
-- 
2.43.0


From 09f7383ae53208773ccf0cb60382a569cdfdcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 56/66] fix: converting an old working copy must not overwrite
 new ignore files

---
 bversion/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index c75bced..81ef284 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -50,14 +50,14 @@ def init(unlocked = False):
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
     # As the system was renamed from shttpfs to BVersion, we need to rename assosiated dirs and files if needed
-    try: os.rename(cpjoin(working_copy_base_path, '.shttpfs'), cpjoin(working_copy_base_path, '.bvn'))
-    except FileNotFoundError: pass
+    for suffix in ['', '_ignore', '_pull_ignore']:
+        new_path = cpjoin(working_copy_base_path, '.bvn' + suffix)
 
-    try: os.rename(cpjoin(working_copy_base_path, '.shttpfs_ignore'), cpjoin(working_copy_base_path, '.bvn_ignore'))
-    except FileNotFoundError: pass
+        # Once converted, do not let an old file pulled from the server replace the new one
+        if os.path.lexists(new_path): continue
 
-    try:os.rename(cpjoin(working_copy_base_path, '.shttpfs_pull_ignore'), cpjoin(working_copy_base_path, '.bvn_pull_ignore'))
-    except FileNotFoundError: pass
+        try: os.rename(cpjoin(working_copy_base_path, '.shttpfs' + suffix), new_path)
+        except FileNotFoundError: pass
 
 
     # ======================================
-- 
2.43.0


From 2ee45df746db78107ab9334ca2d9c16359426709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 57/66] fix: old working copies which were never updated could
 not be converted

---
 bversion/client.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 81ef284..03821b3 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -117,14 +117,17 @@ def update_manifest(session_token):
 
         # As the old manifest format did not store server file hashes, we need to get
         # them from the server and add them to the manifest
-        req_result, headers = get_files_in_version(session_token, show_head = False,
-                                                   version_id = old_manifest['have_revision'])
+        server_file_info_for_version = {}
 
-        if headers['status'] != 'ok':
-            raise SystemExit(headers['msg'])
+        if old_manifest['have_revision'] != 'root': # no files, was never updated
+            req_result, headers = get_files_in_version(session_token, show_head = False,
+                                                       version_id = old_manifest['have_revision'])
+
+            if headers['status'] != 'ok':
+                raise SystemExit(headers['msg'])
 
-        # Get file hashes from the server
-        server_file_info_for_version = json.loads(req_result)['files']
+            # Get file hashes from the server
+            server_file_info_for_version = json.loads(req_result)['files']
 
         # Apply pull ignore filters to the server data
         new_server_file_info_for_version = {}
-- 
2.43.0


From f9b6f6dc86af3f4a2f50687825c9b0d1072ff0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 58/66] fix: old working copies which lack files of their
 version could not be converted

---
 bversion/client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 03821b3..20bb57a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -136,14 +136,12 @@ def update_manifest(session_token):
                 new_server_file_info_for_version[path] = file_info
         server_file_info_for_version = new_server_file_info_for_version
 
-        # The number of items in the local manifest may be more than the
-        # remote in case the client did a partial update, then Bversion version
-        # was updated, but should never be less
-        if len(old_manifest['files']) < len(server_file_info_for_version):
-            raise Exception('local manifest error')
-
+        # The files in the local manifest may not be the same as the remote in case the client did a partial
+        # update or has removed a pull ignore filter, and then Bversion version was updated.
         new_files = []
         for path, file_info in server_file_info_for_version.items():
+            if path not in old_manifest['files']: continue
+
             item = old_manifest['files'][path]
             item['server_file_hash'] = file_info['hash']
             old_manifest['files'].pop(path)
-- 
2.43.0


From db41efd7d296dc2c721204727d8f2956347bdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 59/66] fix: status of an old working copy must convert it

---
 bversion/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 20bb57a..dad9823 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -107,12 +107,16 @@ def init(unlocked = False):
         server_connection = client_http_request(config['server_domain'])
 
 
+#===============================================================================
+def have_old_manifest() -> bool:
+    return os.path.isfile(cpjoin(config['data_dir'], '.bvn', 'manifest.json'))
+
 #===============================================================================
 def update_manifest(session_token):
 
     old_manifest_path = cpjoin(config['data_dir'], '.bvn', 'manifest.json')
 
-    if os.path.isfile(old_manifest_path):
+    if have_old_manifest():
         old_manifest = json.loads(file_get_contents(old_manifest_path))
 
         # As the old manifest format did not store server file hashes, we need to get
@@ -1444,6 +1448,9 @@ def run():
     elif args [0] == 'status':
         init()
 
+        # Without its manifest, everything in an old working copy would show up as new
+        if have_old_manifest(): update_manifest(authenticate())
+
         display_status()
 
 
-- 
2.43.0


From 35abb7dd08c00d4b66cdfa73f340f5e7fd79ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 60/66] fix: restore must skip repositories which are not
 backed up

---
 bversion/repo_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..18a4bf9 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -277,6 +277,14 @@ def restore():
     s3_conn = init_backup()
 
     for repository_name, details in config['repositories'].items():
+        if 'backup' not in details or details['backup'] is not True:
+            continue
+
+        # Repositories which did not contain any commits when they were backed up don't have anything to restore
+        if s3_interface.list_remote_objects(s3_conn, repository_name + '/head') == []:
+            print('There is no backup of: ' + repository_name)
+            continue
+
         repository_path = details['path']
         repository_path += '_restore'
 
-- 
2.43.0


From b78b7a110fb61789a33e95433d661aef23375f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 61/66] fix: versioning could not be enabled on new buckets

---
 bversion/backup/s3_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/backup/s3_interface.py b/bversion/backup/s3_interface.py
index 8862ce0..f2d6bc2 100644
--- a/bversion/backup/s3_interface.py
+++ b/bversion/backup/s3_interface.py
@@ -21,7 +21,7 @@ def connect(config):
                             aws_secret_access_key=secret_key)
 
     bucket_versioning = client.get_bucket_versioning(Bucket=config['s3']['bucket'])
-    if bucket_versioning['Status'] != 'Enabled':
+    if bucket_versioning.get('Status') != 'Enabled': # Status is missing if versioning was never enabled
         print('Bucket versioning must be enabled, attempting to enable, please restart application')
         client.put_bucket_versioning(Bucket=config['s3']['bucket'], VersioningConfiguration={'Status': 'Enabled' })
         raise SystemExit(0)
-- 
2.43.0


From c75f5d1e8426a61efb9b3769cecb7a8dca696f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 62/66] fix: backup must not take objects of other repositories
 for its own

---
 bversion/repo_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 18a4bf9..d31aac6 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -129,8 +129,11 @@ def backup():
 
             for item in commits_on_remote:
                 commit_hash = item['Key'].split('/')[-1]
-                commits.pop(commit_hash)
-                commits_order.remove(commit_hash)
+
+                # Objects of repositories with longer names can also begin with the prefix
+                if item['Key'] == repository_name + '/commits/' + commit_hash and commit_hash in commits:
+                    commits.pop(commit_hash)
+                    commits_order.remove(commit_hash)
 
 
             # ========================================================================
@@ -200,7 +203,7 @@ def backup():
                 # subtract objects that already exist on remote
                 for item in index_on_remote:
                     file_hash = ''.join(item['Key'].split('/')[-2:])
-                    if file_hash in index_objects:
+                    if file_hash in index_objects and item['Key'] == repository_name + '/' + index_objects[file_hash]['dest']:
                         index_objects.pop(file_hash)
                         index_object_order.remove(file_hash)
 
@@ -220,7 +223,7 @@ def backup():
                 # subtract files that already exist
                 for item in files_on_remote:
                     file_hash = ''.join(item['Key'].split('/')[-2:])
-                    if file_hash in file_objects:
+                    if file_hash in file_objects and item['Key'] == cpjoin(repository_name, 'files', file_hash[:2], file_hash[2:]):
                         file_objects.pop(file_hash)
 
                 # -------------------------------
-- 
2.43.0


From cbbcb23d9c18626810daa6065b6984c7dc9c696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 63/66] fix: restore must skip repositories which are not
 backed up, whatever others are named

---
 bversion/repo_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index d31aac6..8a214c3 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -284,7 +284,8 @@ def restore():
             continue
 
         # Repositories which did not contain any commits when they were backed up don't have anything to restore
-        if s3_interface.list_remote_objects(s3_conn, repository_name + '/head') == []:
+        heads = s3_interface.list_remote_objects(s3_conn, repository_name + '/head')
+        if repository_name + '/head' not in [item['Key'] for item in heads]:
             print('There is no backup of: ' + repository_name)
             continue
 
-- 
2.43.0


From fcd101c1a6f2db75a97d4df77407a00df4f9f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 64/66] fix: objects which are not encrypted must not be
 restored

---
 bversion/repo_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 8a214c3..b4bcae8 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -72,7 +72,11 @@ def streaming_upload(s3_conn, lconfig, remote_file_path, file_handle):
 #===============================================================================
 def streaming_download(s3_conn, lconfig, remote_file_path, version_id, file_handle):
     download_stream  = s3_interface.streaming_download()
-    header = download_stream.begin(s3_conn, remote_file_path, version_id)[0]
+    header, pl_format = download_stream.begin(s3_conn, remote_file_path, version_id)
+
+    # Everything we upload is encrypted, anything else can only be the result of tampering
+    if 'encrypt' not in pl_format['format']: raise ValueError('Object is not encrypted: ' + remote_file_path)
+
     pl                = pipeline.build_pipeline_streaming(download_stream, 'in')
     pl.pass_config(lconfig, header)
 
-- 
2.43.0


From c8e4bf0192c7c1ba70389d9a983b296e4d150fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 65/66] fix: private keys which are neither plain nor encrypted
 must be rejected

---
 bversion/crypto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index cccffd8..fd51fdb 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -53,5 +53,7 @@ def unlock_private_key(private_key_b64: str) -> bytes:
         key: bytes = hash_password(getpass.getpass(), salt)
         private_key = pysodium.crypto_secretbox_open(cyphertext, nonce, key)
         return private_key
-    else:
+    elif private_key[:1] == b'n' and len(private_key) == pysodium.crypto_sign_SECRETKEYBYTES + 1:
         return private_key[1:]
+    else:
+        raise ValueError('Invalid private key')
-- 
2.43.0


From 2e0d945422f23e5596c0878a5001bcbdab4a76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 66/66] fix: a login token used by two requests at the same
 time opens one session

---
 bversion/server.py            | 6 ++++--
 bversion/storage/server_db.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 84828c0..7a9937c 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -166,8 +166,10 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
 
             # Everything OK, clean up transient token and
-            # generate a session token for the client
-            sdb.delete_token(auth_token)
+            # generate a session token for the client. Another request
+            # may have used the token since it was looked up above.
+            if not sdb.delete_token(auth_token):
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 927bb4f..56aa380 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -128,8 +128,10 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        """ Returns false if the token was already gone """
+        res = self.con.execute("delete from tokens where token = ?", (auth_token,))
         self.con.commit()
+        return res.rowcount > 0
 
 
     #===============================================================================
-- 
2.43.0

